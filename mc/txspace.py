"""The bounded transaction state space: bases and single-field deviations"""
import struct
from . import ref

H = [bytes([i + 1]) * 32 for i in range(8)]
A33 = b'\x0a' + H[0]
B33 = b'\x0b' + H[1]
ASSETS = [b'', b'\x01' + H[2], A33, B33]


def val(n):
    return b'\x01' + struct.pack('>q', n)


VALUES = [b'', val(0), val(1), val(2**31), val(2**32), val(21 * 10**14),
          val(2**63 - 1), val(-1), b'\x08' + H[3], b'\x09' + H[4]]
NONCES = [b'', b'\x01' + H[5], b'\x02' + H[5], b'\x03' + H[6]]
LENS = [0, 1, 75, 76, 252, 253, 254, 255, 256, 520, 0xffff, 0x10000]
SCRIPTS = [(bytes((i * 7 + 1) & 255 for i in range(251)) * (n // 251 + 1))[:n] for n in LENS]
NS = [0, 1, 0x3ffffffe, 0x3fffffff, 0xffffffff]
SEQS = [0, 1, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]
VERSIONS = [1, 2, 0, -1, -2**31, 2**31 - 1]
LOCKTIMES = [0, 1, 499999999, 0x7fffffff, 0x80000000, 0xffffffff]
ISSUANCES = [
    ref.NULL_ISSUANCE,
    (ref.Z32, ref.Z32, val(1), b''),
    (ref.Z32, H[6], b'', val(2)),
    (ref.Z32, H[6], val(2**40), val(0)),
    (H[7], H[6], b'\x08' + H[1], b'\x09' + H[2]),
    (H[7], H[5], b'\x09' + H[1], b''),
    (ref.Z32, ref.Z32, val(0), b''),
    (H[7], H[6], b'', b''),       # without amounts it is none, whatever else is there
]
STACKS = [(), (b'',), (b'\x01',), (b'', b'\x30' * 71, b'\x02' * 33),
          (b'x' * 253,), (b'y',) * 253]
PROOFS = [b'', b'\0', b'\x60' * 252, b'\x61' * 253, b'\x62' * 4174]


def mk_in(k=0, **kw):
    d = dict(h=H[k % 8], n=k, sig=b'', seq=0xffffffff - k, iss=ref.NULL_ISSUANCE, pegin=False)
    d.update(kw)
    return (d['h'], d['n'], d['sig'], d['seq'], d['iss'], d['pegin'])


def mk_out(k=0, **kw):
    d = dict(a=b'\x01' + H[2], v=val(1000 + k), n=b'', s=b'\x51' * (k + 1))
    d.update(kw)
    return (d['a'], d['v'], d['n'], d['s'])


def bases():
    yield (2, (mk_in(0),), (mk_out(0),), 0, ref.NO_WIT)
    yield (1, (mk_in(0, iss=ISSUANCES[4], pegin=True, n=5), mk_in(1, sig=b'\0' * 23)),
           (mk_out(0, a=A33, v=VALUES[8], n=NONCES[2]), mk_out(1, s=b'')), 0x80000001,
           ((((b's', b'p'), b'ir', b'', (b'pw',)), ref.NULL_INWIT),
            ((b'sp', b'rp'), ref.NULL_OUTWIT)))
    # coinbase-like
    yield (2, (mk_in(0, h=ref.Z32, n=0xffffffff, sig=b'\x51\x02'),), (mk_out(0), mk_out(1)),
           7, ((((b'\0' * 32,), b'', b'', ()),), (ref.NULL_OUTWIT,) * 2))
    yield (2, (), (), 0, ref.NO_WIT)
    yield (-2, (mk_in(0, iss=ISSUANCES[3]), mk_in(1, iss=ISSUANCES[2]), mk_in(2, pegin=True)),
           (mk_out(0), mk_out(1, n=NONCES[3]), mk_out(2)), 1, ref.NO_WIT)


def _repl(t, i, x):
    return t[:i] + (x,) + t[i + 1:]


def fix(tx):
    """Coinbase-like prevouts carry neither issuance nor peg-in flag; and the
    wire value 0xffffffff is not available for a flagged index"""
    vin = []
    for i in tx[1]:
        if i[1] == 0xffffffff:
            i = i[:4] + (ref.NULL_ISSUANCE, False)
        elif i[1] == 0x3fffffff and i[5] and not ref.issuance_null(i[4]):
            i = _repl(i, 5, False)
        if ref.issuance_null(i[4]):
            i = _repl(i, 4, ref.NULL_ISSUANCE)
        vin.append(i)
    return (tx[0], tuple(vin)) + tx[2:]


def deviations(tx, lens=None, pos=None):
    """All transactions that differ from tx in one field / one element"""
    version, vin, vout, locktime, w = tx
    scripts = SCRIPTS if lens is None else [s for s in SCRIPTS if len(s) in lens]
    for v in VERSIONS:
        yield (v,) + tx[1:]
    for v in LOCKTIMES:
        yield tx[:3] + (v,) + tx[4:]
    for k, i in enumerate(vin):
        if pos is not None and k not in pos:
            continue
        alts = ([_repl(i, 0, ref.Z32)] + [_repl(i, 1, n) for n in NS]
                + [_repl(i, 2, s) for s in scripts] + [_repl(i, 3, s) for s in SEQS]
                + [_repl(i, 4, s) for s in ISSUANCES] + [_repl(i, 5, not i[5])])
        for a in alts:
            yield fix((version, _repl(vin, k, a)) + tx[2:])
    for k, o in enumerate(vout):
        if pos is not None and k not in pos:
            continue
        alts = ([_repl(o, 0, a) for a in ASSETS] + [_repl(o, 1, a) for a in VALUES]
                + [_repl(o, 2, a) for a in NONCES] + [_repl(o, 3, s) for s in scripts])
        for a in alts:
            yield (version, vin, _repl(vout, k, a), locktime, w)
    # element counts (witness entries stay attached to their position)
    full = (tuple(ref.inwit(tx, k) for k in range(len(vin))),
            tuple(ref.outwit(tx, k) for k in range(len(vout))))
    if vin:
        yield (version, vin[:-1], vout, locktime, (full[0][:-1], full[1]))
    if vout:
        yield (version, vin, vout[:-1], locktime, (full[0], full[1][:-1]))
    yield (version, vin + (mk_in(len(vin)),), vout, locktime, full)
    yield (version, vin, vout + (mk_out(len(vout)),), locktime, full)
    # witness
    for k in range(len(vin)):
        if pos is not None and k not in pos:
            continue
        iw = full[0][k]
        alts = ([_repl(iw, 0, s) for s in STACKS] + [_repl(iw, 3, s) for s in STACKS]
                + [_repl(iw, 1, s) for s in PROOFS] + [_repl(iw, 2, s) for s in PROOFS])
        for a in alts:
            yield (version, vin, vout, locktime, (_repl(full[0], k, a), full[1]))
    for k in range(len(vout)):
        if pos is not None and k not in pos:
            continue
        ow = full[1][k]
        alts = [_repl(ow, 0, s) for s in PROOFS] + [_repl(ow, 1, s) for s in PROOFS]
        for a in alts:
            yield (version, vin, vout, locktime, (full[0], _repl(full[1], k, a)))
    # fewer witness entries than inputs / outputs
    if any(full):
        yield (version, vin, vout, locktime, ref.NO_WIT)
        yield (version, vin, vout, locktime, (full[0][:1], full[1]))
        yield (version, vin, vout, locktime, (full[0], full[1][:1]))


def big():
    """Counts around the compact-size boundaries"""
    for n in (252, 253, 254):
        yield (2, tuple(mk_in(k, n=k) for k in range(n)), (mk_out(),), 0, ref.NO_WIT)
        yield (2, (mk_in(),), tuple(mk_out(k % 5) for k in range(n)), 0,
               (((ref.NULL_INWIT),), (ref.NULL_OUTWIT,) * (n - 1) + ((b'a', b'b'),)))
        yield (2, tuple(mk_in(k, n=k) for k in range(n)), (mk_out(),), 0,
               ((ref.NULL_INWIT,) * (n - 1) + (((b'a',), b'b', b'c', (b'd',)),), (ref.NULL_OUTWIT,)))


SMALL_LENS = (0, 1, 76, 253)
