"""C05 identity: txid, full hash, equality and hash() over all pairs of a
transaction neighbourhood"""
from .. import ref, bind, txspace
from ..engine import same, require, bfs

PROPERTY = 'C05'
ASSUMPTIONS = ['no SHA-256 collisions among the enumerated transactions']
LENS = (0, 1, 253)
_N = {}


def bound(tier):
    return ('every pair (mutable and immutable forms) out of the 1-deviation neighbourhood of '
            '%d bases; every change of a witness field from every state; all pairs of '
            'parts' % (2 if tier == 'quick' else 5))


def hood(k):
    if k not in _N:
        b = list(txspace.bases())[k]
        _N[k] = [t for t, _ in bfs([b], lambda t: txspace.deviations(t, LENS), 1)]
    return _N[k]


def cases(tier):
    for k in (0, 1) if tier == 'quick' else range(5):
        for i in range(len(hood(k))):
            yield ('row', k, i)
    for k in range(5):
        for i in range(len(hood(k))):
            yield ('wit', k, i)
    for kind in ('txin', 'txout', 'outpoint', 'inwit', 'outwit'):
        yield ('parts', kind, 0)


_C = {}


def objs(k):
    """For every transaction in the neighbourhood: model encodings and objects"""
    if k not in _C:
        _C[k] = []
        for t in hood(k):
            _C[k].append((ref.enc_tx(t), ref.enc_tx(t, witness=False),
                          bind.tx(t, False), bind.tx(t, True)))
    return _C[k]


def run_row(k, i, rec):
    all_ = objs(k)
    w, s, a, am = all_[i]
    rec.state((k, w))
    for wj, sj, b, bm in all_:
        eq = w == wj
        seq = s == sj
        for x, y in ((a, b), (a, bm), (am, b), (am, bm)):
            same(x == y, eq, 'equality of %s and %s' % (w.hex(), wj.hex()))
            same(x != y, not eq, 'inequality of %s and %s' % (w.hex(), wj.hex()))
        same(a.GetTxid() == b.GetTxid(), seq, 'equality of txids of %s and %s'
             % (w.hex(), wj.hex()))
        same(am.GetTxid() == b.GetTxid(), seq, 'equality of txids of %s and %s'
             % (w.hex(), wj.hex()))
        same(a.GetHash() == b.GetHash(), eq, 'equality of full hashes of %s and %s'
             % (w.hex(), wj.hex()))
        same(a.GetHash() == bm.GetHash(), eq, 'equality of full hashes of %s and %s'
             % (w.hex(), wj.hex()))
        if eq:
            same(hash(a), hash(b), 'hash()')
            same(hash(am), hash(bm), 'hash()')
            same(len({a, b}), 1, 'set of equal transactions')
        rec.step()
    require(not a == w and not a == None and not a == a.vin, 'comparison with another type')  # noqa
    same(am.GetTxid(), a.GetTxid(), 'GetTxid() twice')
    same(a.GetHash(), am.GetHash(), 'GetHash() twice')
    rec.trace()


def run_wit(k, i, rec):
    """Witness data changes the full hash only"""
    t = hood(k)[i]
    txid, wtxid = ref.txid(t), ref.wtxid(t)
    a = bind.tx(t, True)
    rec.state((k, ref.enc_tx(t)))
    n = len(t[1]), len(t[2])
    iw = [ref.inwit(t, j) for j in range(n[0])]
    ow = [ref.outwit(t, j) for j in range(n[1])]

    def check(what):
        u = t[:4] + ((tuple(iw), tuple(ow)),)
        same(bytes(a.GetTxid()), txid, 'txid after change of ' + what)
        same(bytes(a.to_immutable().GetTxid()), txid, 'txid after change of ' + what)
        same(bytes(a.GetHash()), ref.wtxid(u), 'full hash after change of ' + what)
        same(bytes(a.to_immutable().GetHash()), ref.wtxid(u), 'full hash after change of ' + what)
        require(ref.wtxid(u) != wtxid, 'model: hash does not depend on %s' % what)
        rec.state((k, ref.enc_tx(u)))
        rec.step()
        rec.trace()
    names = ('scriptWitness', 'issuanceAmountRangeproof', 'inflationKeysRangeproof',
             'pegin_witness')
    if len(a.wit.vtxinwit) < n[0] or len(a.wit.vtxoutwit) < n[1]:
        a.wit = bind.wit((tuple(iw), tuple(ow)), True)
    for j in range(n[0]):
        for f in range(4):
            old = iw[j]
            v = ((b'chg',), b'chg', b'chg', (b'chg',))[f]
            iw[j] = old[:f] + (v,) + old[f + 1:]
            o = a.wit.vtxinwit[j]
            prev = getattr(o, names[f])
            setattr(o, names[f], getattr(bind.inwit(iw[j]), names[f]))
            check(names[f])
            setattr(o, names[f], prev)
            iw[j] = old
    for j in range(n[1]):
        for f, nm in enumerate(('surjectionproof', 'rangeproof')):
            old = ow[j]
            ow[j] = old[:f] + (b'chg',) + old[f + 1:]
            o = a.wit.vtxoutwit[j]
            prev = getattr(o, nm)
            setattr(o, nm, b'chg')
            check(nm)
            setattr(o, nm, prev)
            ow[j] = old


def run_parts(kind, rec):
    vals = set()
    for b in (0, 1, 4):
        for t in hood(b):
            vals.update({'txin': t[1], 'txout': t[2], 'outpoint': [x[:2] for x in t[1]],
                         'inwit': t[4][0], 'outwit': t[4][1]}[kind])
    mk = {'outpoint': lambda v, m: bind.outpoint(v[0], v[1], m), 'txin': bind.txin,
          'txout': bind.txout, 'inwit': bind.inwit, 'outwit': bind.outwit}[kind]
    enc = {'outpoint': lambda v: ref.enc_outpoint(*v), 'txin': ref.enc_txin,
           'txout': ref.enc_txout, 'inwit': ref.enc_inwit, 'outwit': ref.enc_outwit}[kind]
    rows = [(enc(v), mk(v, False), mk(v, True)) for v in sorted(vals, key=repr)]
    for w, a, am in rows:
        rec.state((kind, w))
        same(bytes(a.GetHash()), ref.dsha(w), 'GetHash()')
        for wj, b, bm in rows:
            for x, y in ((a, b), (a, bm), (am, b), (am, bm)):
                same(x == y, w == wj, 'equality of %s %s and %s' % (kind, w.hex(), wj.hex()))
            if w == wj:
                same(hash(a), hash(b), 'hash() of %s' % kind)
            rec.step()
        rec.trace()


def run(case, rec):
    {'row': run_row, 'wit': run_wit,
     'parts': lambda k, _, r: run_parts(k, r)}[case[0]](case[1], case[2], rec)
