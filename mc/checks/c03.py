"""C03 confidential asset / value / nonce fields"""
import struct
from io import BytesIO
from bitcointx.core.serialize import SerializationError
from elementstx.core import (CConfidentialAsset, CConfidentialValue, CConfidentialNonce,
                             CAsset)
from .. import ref
from ..engine import same, raises, Violation

PROPERTY = 'C03'
KINDS = {'asset': (CConfidentialAsset, 33, (10, 11)),
         'value': (CConfidentialValue, 9, (8, 9)),
         'nonce': (CConfidentialNonce, 33, (2, 3))}
BODIES = [bytes(range(200, 240)), b'\0' * 40, b'\xff' * 40]


def bound(tier):
    return ('every prefix byte x every length 0..40 x 3 bodies x 3 field kinds, '
            'with and without trailing bytes; amounts around every power of two '
            'in the signed 64-bit range; byte-wise varied asset ids')


def cases(tier):
    for kind in KINDS:
        yield ('null', kind, 0)
        for p in range(256):
            yield ('prefix', kind, p)
    for e in range(64):
        yield ('amount', 'value', e)
    for pos in range(32):
        yield ('assetid', 'asset', pos)
    yield ('badint', 'value', 0)
    yield ('types', 'value', 0)


def observe(obj, kind, raw, rec):
    """All observations of an object holding raw"""
    cls, esize, pfx = KINDS[kind]
    null = len(raw) == 0
    explicit = len(raw) == esize and raw[0] == 1
    commitment = len(raw) == 33 and raw[0] in pfx
    what = '%s %s ' % (kind, raw.hex())
    same(obj.is_null(), null, what + 'is_null')
    same(obj.is_explicit(), explicit, what + 'is_explicit')
    same(obj.is_commitment(), commitment, what + 'is_commitment')
    same(obj.is_valid(), null or explicit or commitment, what + 'is_valid')
    same(bytes(obj.commitment), raw, what + 'commitment')
    same(obj.serialize(), raw or b'\0', what + 'serialize')
    if kind == 'value':
        if explicit:
            same(obj.to_amount(), struct.unpack('>q', raw[1:])[0], what + 'to_amount')
        else:
            raises(what + 'to_amount()', obj.to_amount, exc=(TypeError,))
    if kind == 'asset':
        if explicit:
            a = obj.to_asset()
            same(bytes(a.data), raw[1:], what + 'to_asset')
            same(a.to_hex(), raw[1:][::-1].hex(), what + 'asset id hex')
        else:
            raises(what + 'to_asset()', obj.to_asset, exc=(TypeError,))
    str(obj), repr(obj)
    rec.state((kind, raw))
    rec.trace()


def run(case, rec):
    op, kind, n = case
    cls, esize, pfx = KINDS[kind]
    if op == 'null':
        observe(cls(), kind, b'', rec)
        observe(cls(b''), kind, b'', rec)
        observe(cls.deserialize(b'\0'), kind, b'', rec)
        raises('decoding nothing', cls.deserialize, b'', exc=(SerializationError,))
        raises('trailing data', cls.deserialize, b'\0\0', exc=(SerializationError,))
        rec.step(5)
    elif op == 'prefix':
        for body in BODIES:
            for ln in range(0, 41):
                raw = bytes([n]) + body[:ln]
                rec.step(2)
                # construction from raw bytes accepts the possible lengths only
                if len(raw) in (esize, 33):
                    observe(cls(raw), kind, raw, rec)
                    ba = bytearray(raw)
                    o = cls(ba)
                    ba[0] ^= 1
                    observe(o, kind, raw, rec)
                    same(o == cls(raw), True, 'equality')
                    if n:
                        same(o == cls(bytes([n ^ 1]) + body[:ln]), False, 'inequality')
                else:
                    raises('%s of length %d' % (kind, len(raw)), cls, raw,
                           exc=(ValueError,))
                # decoding
                size = 1 if n == 0 else esize if n == 1 else 33 if n in pfx else None
                want = b'' if n == 0 else raw[:size]
                f = BytesIO(raw)
                ok = size is not None and len(raw) >= size
                try:
                    got = cls.stream_deserialize(f)
                except (SerializationError, ValueError):
                    if ok:
                        raise Violation('%s: valid encoding %s rejected' % (kind, raw.hex()))
                    continue
                if not ok:
                    raise Violation('%s: malformed encoding %s accepted' % (kind, raw.hex()))
                observe(got, kind, want, rec)
                same(f.tell(), max(1, len(want)), 'bytes consumed')
                same(got.serialize(), raw[:max(1, len(want))], 'canonical re-encoding')
    elif op == 'amount':
        for v in {(1 << n) - 1, 1 << n, (1 << n) + 1, -(1 << n), -(1 << n) - 1, -(1 << n) + 1}:
            if not -2**63 <= v < 2**63:
                continue
            raw = b'\x01' + v.to_bytes(8, 'big', signed=True)
            for o in (cls(v), cls.from_amount(v), cls(raw), cls.deserialize(raw)):
                observe(o, kind, raw, rec)
                same(o.to_amount(), v, 'amount')
            rec.step(4)
    elif op == 'assetid':
        for b in range(256):
            data = bytes(n) + bytes([b]) + bytes(31 - n)
            raw = b'\x01' + data
            for o in (cls(CAsset(data)), cls.from_asset(CAsset(data)), cls(raw),
                      cls.deserialize(raw)):
                observe(o, kind, raw, rec)
                same(o.to_asset() == CAsset(data), True, 'asset')
            rec.step(4)
    elif op == 'badint':
        for v in (2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**100):
            raises('amount %d' % v, cls, v)
            raises('amount %d' % v, cls.from_amount, v)
            rec.state(('bad', v))
            rec.step(2)
    elif op == 'types':
        for k, (c, _, _) in KINDS.items():
            for bad in ('00', None, 1.5, [1], CAsset(b'\1' * 32) if k != 'asset' else 'x'):
                raises('%s from %r' % (k, bad), c, bad, exc=(TypeError, ValueError))
                rec.state((k, repr(bad)))
                rec.step()
            # immutable
            raises('assigning a field', setattr, c(), 'commitment', b'', exc=(AttributeError,))
