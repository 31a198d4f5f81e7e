"""Transactions for the signature hash checks: all shapes up to 3x3 with rich
contents, and their neighbourhoods"""
from . import ref, txspace, bind
from .engine import bfs
from .txspace import mk_in, mk_out, VALUES, NONCES, ISSUANCES, A33, B33

LENS = (0, 1, 76, 253)
INS = (mk_in(0, iss=ISSUANCES[3], n=5, sig=b'\x51'), mk_in(1, pegin=True, seq=7),
       mk_in(2, iss=ISSUANCES[4], pegin=True, n=0x3ffffffe, sig=b'\xab\x51'))
OUTS = (mk_out(0, a=A33, v=VALUES[8], n=NONCES[2]), mk_out(1, a=B33, s=b''),
        mk_out(2, v=VALUES[9], n=NONCES[3]))
INW = ((((b's', b'p'), b'ir', b'kr', (b'pw',))), ((), b'', b'', (b'pq', b'')),
       ((b'',), b'iR', b'', ()))
OUTW = ((b'sp', b'rp'), (b'', b''), (b'', b'rQ'))


def shapes():
    for nin in (1, 2, 3):
        for nout in (0, 1, 2, 3):
            yield (2, INS[:nin], OUTS[:nout], 0x80000003, (INW[:nin], OUTW[:nout]))
            yield (1, INS[3 - nin:], OUTS[3 - nout:], 5, ref.NO_WIT)


def nullish(t):
    """t with, at each input, an issuance that has no amounts but does have a
    blinding nonce and an entropy: it signs like no issuance"""
    for k, i in enumerate(t[1]):
        for iss in ((i[0], i[0], b'', b''), (ref.Z32, i[0], b'', b'')):
            yield t[:1] + (t[1][:k] + (i[:4] + (iss,) + i[5:],) + t[1][k + 1:],) + t[2:]


def neighbourhood(depth, few=False):
    """(transaction, deviations)"""
    sh = list(shapes())
    seen = set(sh)
    for t in sh:
        for u in nullish(t):
            yield u, 1
    near = [t for t in sh if len(t[1]) >= 2 and len(t[2]) == 2] if few else sh
    for t, d in bfs(near, lambda t: txspace.deviations(t, LENS), 1):
        if d and t not in seen:
            seen.add(t)
            yield t, d
    if depth == 2:
        for t, d in bfs(sh[8:9], lambda t: txspace.deviations(t, (0, 76)), 2):
            if d == 2 and t not in seen:
                yield t, d


def assign(m, t):
    """Write the value t into the existing mutable transaction m, reusing its
    parts where they exist"""
    m.nVersion = t[0]
    m.nLockTime = t[3]
    del m.vin[len(t[1]):]
    for k, i in enumerate(t[1]):
        n = bind.txin(i, True)
        if k < len(m.vin):
            x = m.vin[k]
            x.prevout.hash, x.prevout.n = n.prevout.hash, n.prevout.n
            x.scriptSig, x.nSequence = n.scriptSig, n.nSequence
            x.assetIssuance, x.is_pegin = n.assetIssuance, n.is_pegin
        else:
            m.vin.append(n)
    del m.vout[len(t[2]):]
    for k, o in enumerate(t[2]):
        n = bind.txout(o, True)
        if k < len(m.vout):
            x = m.vout[k]
            x.nAsset, x.nValue, x.nNonce, x.scriptPubKey = \
                n.nAsset, n.nValue, n.nNonce, n.scriptPubKey
        else:
            m.vout.append(n)
    m.wit = bind.wit(t[4], True)
    return m
