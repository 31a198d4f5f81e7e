"""C02 decoding of arbitrary bytes: agreement with a strict reference decoder"""
from io import BytesIO
from bitcointx.core.serialize import SerializationError
from elementstx.core import (CAssetIssuance, CConfidentialAsset, CConfidentialValue,
                             CConfidentialNonce)
from .. import ref, bind, txspace, vectors
from ..engine import same, Violation, short

PROPERTY = 'C02'
ASSUMPTIONS = ['an issuance flag with an empty issuance record is accepted and '
               'normalised away, as in Elements Core']

INTEREST = (0, 1, 2, 3, 7, 8, 9, 10, 11, 12, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0,
            0xfc, 0xfd, 0xfe, 0xff)


def bound(tier):
    return ('all truncations, all single-byte substitutions/insertions/deletions, '
            'appended bytes and re-encoded compact sizes of %d valid encodings; thorough: '
            'all pairs of substitutions from %d values in the small ones; '
            'the same mutations of every part that can be decoded on its own, and witnesses '
            'for -2..7 inputs and outputs'
            % (len(bases()), len(INTEREST)))


def bases():
    b = list(txspace.bases())
    out = [ref.enc_tx(t) for t in b]
    # every optional part present, all short
    small = (2, (txspace.mk_in(0, iss=txspace.ISSUANCES[5], n=3),),
             (txspace.mk_out(0, a=txspace.A33, v=txspace.VALUES[8], n=txspace.NONCES[2]),), 9,
             ((((b'w',), b'i', b'k', (b'p',)),), ((b's', b'r'),)))
    out.append(ref.enc_tx(small))
    out.append(ref.enc_tx((1, (txspace.mk_in(0),), (), 0, ((((b'',), b'', b'', ()),), ()))))
    return out


# parts that can be decoded on their own: class, reference decoder and encoder, observation
PARTS = {
    'asset': (lambda m: CConfidentialAsset, lambda r: r.conf('asset'), ref.conf,
              lambda o: bytes(o.commitment), txspace.ASSETS),
    'value': (lambda m: CConfidentialValue, lambda r: r.conf('value'), ref.conf,
              lambda o: bytes(o.commitment), txspace.VALUES),
    'nonce': (lambda m: CConfidentialNonce, lambda r: r.conf('nonce'), ref.conf,
              lambda o: bytes(o.commitment), txspace.NONCES),
    'issuance': (lambda m: CAssetIssuance, lambda r: r.issuance(), ref.enc_issuance,
                 bind.un_issuance, txspace.ISSUANCES),
    'outpoint': (lambda m: bind.CLS[m]['outpoint'],
                 lambda r: (r.read(32), r.fmt('<I', 4)), lambda o: ref.enc_outpoint(*o),
                 lambda o: (bytes(o.hash), o.n),
                 [(txspace.H[0], n) for n in txspace.NS + [0x80000000, 0x40000000]]),
    'txin': (lambda m: bind.CLS[m]['txin'], lambda r: r.txin(), ref.enc_txin, bind.un_txin,
             [txspace.mk_in(0), txspace.mk_in(0, iss=txspace.ISSUANCES[5], n=3),
              txspace.mk_in(1, pegin=True), txspace.mk_in(1, sig=b'\x51' * 3),
              txspace.mk_in(0, n=0xffffffff)]),
    'txout': (lambda m: bind.CLS[m]['txout'], lambda r: r.txout(), ref.enc_txout, bind.un_txout,
              [txspace.mk_out(0), txspace.mk_out(0, a=b'', v=b'', n=b''),
               txspace.mk_out(1, a=txspace.A33, v=txspace.VALUES[8], n=txspace.NONCES[2])]),
    'inwit': (lambda m: bind.CLS[m]['inwit'], lambda r: r.inwit(), ref.enc_inwit, bind.un_inwit,
              [ref.NULL_INWIT, ((b'w', b''), b'i', b'kk', (b'p',)),
               ((), b'', b'k' * 253, ())]),
    'outwit': (lambda m: bind.CLS[m]['outwit'], lambda r: r.outwit(), ref.enc_outwit,
               bind.un_outwit, [ref.NULL_OUTWIT, (b's', b'rr'), (b'', b'r' * 253)]),
}

WIT = ((((b'w',), b'i', b'k', (b'p',)), ref.NULL_INWIT), ((b's', b'r'), (b'', b'rr'), (b'', b'')))


def part_inputs(p):
    for v in PARTS[p][4]:
        b = PARTS[p][2](v)
        yield b
        for i in range(len(b)):
            yield b[:i]
            yield b[:i] + b[i + 1:]
            for x in (range(256) if i == 0 else INTEREST):
                yield b[:i] + bytes([x]) + b[i + 1:]
                yield b[:i] + bytes([x]) + b[i:]
        for x in INTEREST:
            yield b + bytes([x])
    yield b''
    for a in range(256):
        yield bytes([a])
        for n in (7, 8, 9, 31, 32, 33):
            yield bytes([a]) + b'\x22' * n


def check_part(p, data, mut, rec):
    cls, dec, enc, un, _ = PARTS[p]
    r = ref.Reader(data)
    try:
        want = dec(r)
        if r.p != len(data):
            raise ref.Reject('trailing data')
    except ref.Reject as e:
        want, why = None, str(e)
    rec.step()
    try:
        got = cls(mut).deserialize(data)
    except (SerializationError, ValueError) as e:
        if want is not None:
            raise Violation('valid %s rejected with %s: %s; input %s'
                            % (p, type(e).__name__, e, data.hex()))
        rec.count('part rejected')
        return
    except Exception as e:
        raise Violation('decoding a %s failed with %s (%s), which is not a decoding error; '
                        'input %s' % (p, type(e).__name__, e, data.hex()))
    if want is None:
        raise Violation('malformed %s (%s) accepted; input %s' % (p, why, data.hex()))
    rec.count('part accepted')
    rec.state((p, data))
    same(un(got), want, 'decoded %s %s' % (p, data.hex()))
    if p == 'txin' and ref.issuance_null(want[4]):
        want = want[:4] + (ref.NULL_ISSUANCE,) + want[5:]
    same(got.serialize(), enc(want), 're-serialization of %s %s' % (p, data.hex()))


def check_wit(ni, no, cut, mut, rec):
    """the witness of a transaction, decoded for given numbers of inputs and outputs"""
    whole = (b''.join(ref.enc_inwit(WIT[0][i % 2]) for i in range(max(ni, 0)))
             + b''.join(ref.enc_outwit(WIT[1][i % 3]) for i in range(max(no, 0))))
    if cut > len(whole):
        return
    data = whole[:len(whole) - cut]
    cls = bind.CLS[mut]['wit']
    what = 'witness for %d inputs and %d outputs, %s' % (ni, no, data.hex())
    rec.step()
    f = BytesIO(data + b'rest')
    if cut:
        f = BytesIO(data)
    try:
        got = cls.stream_deserialize(f, num_inputs=ni, num_outputs=no)
    except (SerializationError, ValueError) as e:
        if ni >= 0 and no >= 0 and not cut:
            raise Violation('%s rejected: %r' % (what, e))
        rec.count('witness rejected')
        return
    except Exception as e:
        raise Violation('%s: %r, which is not a decoding error' % (what, e))
    if ni < 0 or no < 0 or cut:
        raise Violation('%s accepted' % what)
    rec.state((ni, no))
    same(bind.un_wit(got), (tuple(WIT[0][i % 2] for i in range(ni)),
                            tuple(WIT[1][i % 3] for i in range(no))), what)
    same(f.read(), b'rest', what + ': what follows it')
    same(got.serialize(), data, what + ', serialized')


def cases(tier):
    for p in PARTS:
        yield ('part', p, 0)
        yield ('part', p, 1)
    for mut in (0, 1):
        yield ('wit', 0, mut)
    bs = bases()
    for k, b in enumerate(bs):
        yield ('exact', k, 0)
        for p in range(len(b)):
            yield ('sub', k, p)
            yield ('trunc', k, p)
            yield ('ins', k, p)
            yield ('del', k, p)
        yield ('append', k, 0)
        yield ('varint', k, 0)
    for i in range(len(vectors.txs())):
        yield ('vector', i, 0)
    yield ('short', 0, 0)
    if tier == 'thorough':
        for k, b in enumerate(bs):
            if len(b) < 400:
                for p in range(len(b)):
                    yield ('pair', k, p)
        for i in range(74):
            yield ('vecsub', i, 0)


def inputs(case):
    kind, k, p = case
    if kind in ('vector', 'vecsub'):
        h = bytes.fromhex(vectors.txs()[k]['hex'])
        if kind == 'vector':
            yield h
            yield h[:-1]
            yield h + b'\0'
        else:
            for q in range(0, len(h), max(1, len(h) // 500)):
                for v in (0, 0xfd, 0xff, h[q] ^ 0x80, h[q] ^ 1):
                    yield h[:q] + bytes([v]) + h[q + 1:]
        return
    if kind == 'short':
        # every input of at most 2 bytes, and every flag/count prefix
        yield b''
        for a in range(256):
            yield bytes([a])
            yield b'\x02\0\0\0' + bytes([a])
            for c in INTEREST:
                yield bytes([a, c])
                for tail in (b'', b'\0', b'\0' * 5, b'\0' * 6, b'\0' * 20):
                    yield b'\x02\0\0\0' + bytes([a, c]) + tail
        return
    b = bases()[k]
    if kind == 'exact':
        yield b
    elif kind == 'sub':
        vals = range(256) if len(b) < 300 else sorted(
            set(INTEREST) | {b[p] ^ (1 << j) for j in range(8)})
        for v in vals:
            yield b[:p] + bytes([v]) + b[p + 1:]
    elif kind == 'trunc':
        yield b[:p]
    elif kind == 'ins':
        for v in INTEREST:
            yield b[:p] + bytes([v]) + b[p:]
    elif kind == 'del':
        yield b[:p] + b[p + 1:]
        yield b[:p] + b[p + 2:]
    elif kind == 'append':
        for v in range(256):
            yield b + bytes([v])
        yield b + b
    elif kind == 'varint':
        # re-encode the first byte at every position as a longer compact size
        for p in range(len(b)):
            v = b[p]
            yield b[:p] + b'\xfd' + bytes([v, 0]) + b[p + 1:]
            yield b[:p] + b'\xfe' + bytes([v, 0, 0, 0]) + b[p + 1:]
            yield b[:p] + b'\xff' + bytes([v, 0, 0, 0, 0, 0, 0, 0]) + b[p + 1:]
            yield b[:p] + b'\xff' + b'\xff' * 8 + b[p + 1:]
            yield b[:p] + b'\xfe' + b'\xff' * 4 + b[p + 1:]
    elif kind == 'pair':
        for q in range(p + 1, len(b)):
            for v in INTEREST:
                if v != b[p]:
                    for w in INTEREST:
                        if w != b[q]:
                            m = bytearray(b)
                            m[p], m[q] = v, w
                            yield bytes(m)




def check(data, rec, mut=False):
    try:
        want = ref.dec_tx(data)
    except ref.Reject as e:
        want, why = None, str(e)
    rec.step()
    try:
        got = bind.CLS[mut]['tx'].deserialize(data)
    except (SerializationError, ValueError) as e:
        if want is not None:
            raise Violation('valid encoding rejected with %s: %s; input %s'
                            % (type(e).__name__, e, short(data, 2000)))
        rec.count('rejected: ' + why)
        return
    except Exception as e:
        raise Violation('decoding failed with %s (%s), which is not a decoding error; input %s'
                        % (type(e).__name__, e, short(data, 2000)))
    if want is None:
        raise Violation('malformed encoding (%s) accepted; input %s' % (why, short(data, 2000)))
    rec.count('accepted')
    rec.state(data)
    rec.trace()
    same(bind.un_tx_norm(got), ref.norm_wit(want), 'decoded value of %s' % data.hex())
    again = got.serialize()
    same(again, ref.enc_tx(want), 're-serialization of %s' % data.hex())


def run(case, rec):
    if case[0] == 'part':
        for data in part_inputs(case[1]):
            check_part(case[1], data, bool(case[2]), rec)
        return
    if case[0] == 'wit':
        for ni in (-2, -1, 0, 1, 2, 3, 7):
            for no in (-2, -1, 0, 1, 2, 3, 7):
                for cut in range(0, 6):
                    check_wit(ni, no, cut, bool(case[2]), rec)
        return
    for n, data in enumerate(inputs(case)):
        check(data, rec, mut=bool(n & 1) and case[0] != 'pair')
