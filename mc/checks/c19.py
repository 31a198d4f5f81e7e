"""C19 blinding keys are HMAC-SHA256(derivation key, scriptPubKey)"""
import hashlib
import hmac
from bitcointx import ChainParams
from bitcointx.core.key import CKey, CKeyBase
from bitcointx.core.script import CScript
from bitcointx.wallet import CBitcoinKey
from elementstx.core import derive_blinding_key
from elementstx.core.script import CElementsScript
from elementstx.wallet import CElementsKey, CElementsLiquidV1Key
from .. import ref, txspace
from ..engine import same, raises, require

PROPERTY = 'C19'
KEYS = [b'\0' * 31 + b'\x01', b'\x11' * 32, bytes(range(1, 33)),
        (ref.N - 1).to_bytes(32, 'big'), b'\0' * 16 + b'\x80' * 16]
SPKS = [b'', b'\0' * 1, b'\x76\xa9\x14' + b'\x11' * 20 + b'\x88\xac', b'\xa9\x14' + b'\x22' * 20
        + b'\x87', b'\0\x14' + b'\x33' * 20, b'\0\x20' + b'\x44' * 32, b'\x51\x20' + b'\x55' * 32,
        b'\x6a']


def bound(tier):
    return ('%d keys x all script lengths 0..%d and every single-byte script x 3 argument types x '
            'function and method x 4 key classes x 3 active networks'
            % (len(KEYS), 130 if tier == 'quick' else 1000))


def cases(tier):
    for k in KEYS:
        for n in range(0, 131 if tier == 'quick' else 1001):
            yield (k, bytes((i * 3 + n) & 255 for i in range(n)))
        for b in range(256):
            yield (k, bytes([b]))
        for s in SPKS + txspace.SCRIPTS:
            yield (k, s)
    yield ('types', b'')


def run(case, rec):
    k, s = case
    if k == 'types':
        key = CKey(KEYS[1])
        raises('script of another chain', derive_blinding_key, key, CScript(b'\x51'),
               exc=(TypeError,))
        for bad in (None, 'x', 5, [1]):
            raises('script %r' % (bad,), derive_blinding_key, key, bad)
        for bad in (None, KEYS[1], key.pub):
            raises('key %r' % (bad,), derive_blinding_key, bad, CElementsScript())
        rec.step(8)
        return
    want = ref.hmac_sha256(k, s)
    assert want == hmac.new(k, s, hashlib.sha256).digest()
    rec.state(want)
    outs = []
    for cls in (CKey, CBitcoinKey, CElementsKey, CElementsLiquidV1Key):
        key = cls.from_secret_bytes(k)
        for form in (CElementsScript(s), s, bytearray(s)):
            outs.append(derive_blinding_key(key, form))
        outs.append(CElementsScript(s).derive_blinding_key(key))
        outs.append(derive_blinding_key(cls.from_secret_bytes(k, compressed=False), s))
    if len(s) < 3:
        for p in ('elements', 'elements/liquidv1'):
            with ChainParams(p):
                outs.append(derive_blinding_key(CKey(k), CElementsScript(s)))
    pub = None
    for o in outs:
        require(isinstance(o, CKeyBase), 'result is a %s', type(o).__name__)
        same(bytes(o.secret_bytes), want, 'blinding key of script %s' % s.hex())
        if pub is None:
            pub = ref.pub_ser(ref.ec_mul(int.from_bytes(want, 'big'), ref.G))
        same(bytes(o.pub), pub, 'public blinding key')
        rec.step()
        rec.trace()
