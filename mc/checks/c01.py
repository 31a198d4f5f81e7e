"""C01 transaction wire encoding round-trips and is canonical"""
from io import BytesIO
from bitcointx.core.serialize import SerializationError
from .. import ref, bind, txspace, vectors
from ..engine import same, require, raises

PROPERTY = 'C01'
ASSUMPTIONS = ['python-bitcointx VectorSerializer/BytesSerializer are part of the '
               'system under test; SHA-256 from hashlib is trusted']


def bound(tier):
    return ('all transactions within %d single-field deviations of 5 bases over the '
            'field alphabets of txspace, plus 252/253/254-element vectors'
            % (2 if tier == 'quick' else 3))


def cases(tier):
    from ..engine import bfs
    bases = list(txspace.bases())
    if tier == 'quick':
        # depth 1 with the full alphabet; depth 2 with small scripts from the
        # one-input and the two-input base
        for t, d in bfs(bases, txspace.deviations, 1):
            yield t
        lens = txspace.SMALL_LENS
        for t, d in bfs(bases[:2], lambda t: txspace.deviations(t, lens, (0,)), 2):
            if d == 2:
                yield t
    else:
        for t, d in bfs(bases, lambda t: txspace.deviations(t, (0, 1, 253, 0x10000)), 2):
            yield t
        for t, d in bfs(bases[:1], lambda t: txspace.deviations(t, (1, 253)), 3):
            if d == 3:
                yield t
    for t in txspace.big():
        yield t
    for i in range(len(vectors.txs())):
        yield ('vector', i)
    for n in HIGH:
        yield ('high', n)


# output indices that leave no room for the two flags: they cannot be encoded
HIGH = (0x40000000, 0x40000001, 0x7fffffff, 0x80000000, 0x80000001, 0xbfffffff,
        0xc0000000, 0xdeadbeef, 0xfffffffe)


def run_high(n, rec):
    for iss in (ref.NULL_ISSUANCE, txspace.ISSUANCES[2], txspace.ISSUANCES[3]):
        for pegin in (False, True):
            i = txspace.mk_in(0, n=n, iss=iss, pegin=pegin)
            for mut in (False, True):
                o = bind.txin(i, mut)
                raises('encoding of an input with index %#x' % n, o.serialize,
                       exc=(SerializationError,))
                for vin in ((i,), (txspace.mk_in(1), i), (i, txspace.mk_in(1))):
                    t = bind.tx((2, vin, (txspace.mk_out(0),), 0, ref.NO_WIT), mut)
                    for f in (t.serialize, t.GetTxid, t.GetHash,
                              lambda: t.serialize(include_witness=False)):
                        raises('encoding of a transaction with index %#x' % n, f,
                               exc=(SerializationError,))
                        rec.step()
                rec.state((n, iss, pegin, mut))
                rec.trace()
    rec.count('indices that cannot be encoded')


def run_vector(i, rec):
    """A transaction produced by Elements Core, with what Core says about it"""
    d = vectors.txs()[i]
    wire = bytes.fromhex(d['hex'])
    t = ref.dec_tx(wire)
    for cls in (bind.CLS[False]['tx'], bind.CLS[True]['tx']):
        o = cls.deserialize(wire)
        for src, txid, h, vsize in (('Core', d['txid'], d['hash'], d['vsize']),
                                    ('the model', ref.txid(t)[::-1].hex(),
                                     ref.wtxid(t)[::-1].hex(), ref.vsize(t))):
            same(bytes(o.GetTxid())[::-1].hex(), txid, 'GetTxid() vs ' + src)
            same(bytes(o.GetHash())[::-1].hex(), h, 'GetHash() vs ' + src)
            same(o.get_virtual_size(), vsize, 'get_virtual_size() vs ' + src)
        rec.trace()
    rec.count('Elements Core transactions')
    run_model(t, rec)


def run(t, rec):
    if t[0] == 'vector':
        run_vector(t[1], rec)
    elif t[0] == 'high':
        run_high(t[1], rec)
    else:
        run_model(t, rec)


def run_model(t, rec):
    wire = ref.enc_tx(t)
    stripped = ref.enc_tx(t, witness=False)
    norm = ref.norm_wit(t)
    assert ref.dec_tx(wire) == norm
    rec.state(wire)
    for mut in (False, True):
        obj = bind.tx(t, mut)
        same(obj.serialize(), wire, 'serialize()')
        same(obj.serialize(include_witness=False), stripped,
             'serialize(include_witness=False)')
        same(bind.un_tx_norm(obj), norm, 'fields after serialize()')
        same(bytes(obj.GetTxid()), ref.txid(t), 'GetTxid()')
        same(bytes(obj.GetHash()), ref.wtxid(t), 'GetHash()')
        same(obj.get_virtual_size(), ref.vsize(t), 'get_virtual_size()')
        cls = bind.CLS[mut]['tx']
        back = cls.deserialize(wire)
        require(type(back) is cls, 'deserialize() gave %s', type(back).__name__)
        same(bind.un_tx_norm(back), norm, 'deserialize()')
        same(back.serialize(), wire, 're-serialization')
        f = BytesIO(b'xx' + wire + b'tail')
        f.seek(2)
        back = cls.stream_deserialize(f)
        same(bind.un_tx_norm(back), norm, 'stream_deserialize()')
        same(f.read(), b'tail', 'bytes left in the stream')
        same(bind.un_tx_norm(cls.deserialize(stripped)),
             ref.norm_wit(norm[:4] + (ref.NO_WIT,)), 'deserialize() without witness')
        rec.step(5)
        rec.trace()
    if len(t[1]) + len(t[2]) <= 8:
        for i in t[1]:
            w = ref.enc_txin(i)
            if rec.state(b'in' + w):
                o = bind.txin(i)
                same(o.serialize(), w, 'txin.serialize()')
                same(bind.un_txin(type(o).deserialize(w)), i, 'txin.deserialize()')
        for i in t[2]:
            w = ref.enc_txout(i)
            if rec.state(b'out' + w):
                o = bind.txout(i)
                same(o.serialize(), w, 'txout.serialize()')
                same(bind.un_txout(type(o).deserialize(w)), i, 'txout.deserialize()')
