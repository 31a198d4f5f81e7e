"""Address model: (network, kind, blinding pubkey or None, hash) <-> string"""
import bitcointx.wallet as bw
import elementstx.wallet as ew
from . import ref

KINDS = ('P2PKH', 'P2SH', 'P2WPKH', 'P2WSH', 'P2TR')
B58 = ('P2PKH', 'P2SH')
SIZE = {'P2PKH': 20, 'P2SH': 20, 'P2WPKH': 20, 'P2WSH': 32, 'P2TR': 32}
NETS = ('elements', 'elements/liquidv1')
CLSNAME = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1'}
PARAMS = ('bitcoin',) + NETS
P58 = {('elements', 'P2PKH'): 235, ('elements', 'P2SH'): 75,
       ('elements/liquidv1', 'P2PKH'): 57, ('elements/liquidv1', 'P2SH'): 39}
CONF58 = {'elements': 4, 'elements/liquidv1': 12}
HRP = {'elements': ('ert', 'el'), 'elements/liquidv1': ('ex', 'lq')}
WITVER = {'P2WPKH': 0, 'P2WSH': 0, 'P2TR': 1}
PUBS = [ref.pub_ser(ref.ec_mul(k, ref.G)) for k in (1, 2, 0x1234567, ref.N - 1)]


def hashes(kind):
    n = SIZE[kind]
    return [b'\0' * n, b'\xff' * n, bytes(range(n)), b'\0' * (n - 1) + b'\1',
            ref.sha256(b'a')[:n], b'\x80' + b'\0' * (n - 1)]


def encode(net, kind, pub, h):
    if kind in B58:
        p = bytes([P58[net, kind]])
        if pub is not None:
            p = bytes([CONF58[net]]) + p + pub
        return ref.b58check_enc(p + h)
    if pub is None:
        return ref.BECH32.encode(HRP[net][0], WITVER[kind], h)
    return ref.BLECH32.encode(HRP[net][1], WITVER[kind], pub + h)


def decode(s):
    """(net, kind, pub, hash) or None"""
    if not s:
        return None
    p = ref.b58check_dec(s)
    if p is not None:
        for net in NETS:
            for k in B58:
                v = P58[net, k]
                if len(p) == 21 and p[0] == v:
                    return net, k, None, p[1:]
                if len(p) == 55 and p[0] == CONF58[net] and p[1] == v:
                    return net, k, p[2:35], p[35:]
        return None
    for codec, i in ((ref.BECH32, 0), (ref.BLECH32, 1)):
        d = codec.decode(s)
        if d is None:
            continue
        for net in NETS:
            if d[0] == HRP[net][i]:
                for k in WITVER:
                    if d[1] == WITVER[k] and len(d[2]) == SIZE[k] + 33 * i:
                        return (net, k, d[2][:33] if i else None, d[2][33 * i:])
    return None


def spk(kind, h):
    return {'P2PKH': b'\x76\xa9\x14' + h + b'\x88\xac', 'P2SH': b'\xa9\x14' + h + b'\x87',
            'P2WPKH': b'\0\x14' + h, 'P2WSH': b'\0\x20' + h, 'P2TR': b'\x51\x20' + h}[kind]


def concrete(net, kind, conf):
    return getattr(ew, '%s%s%sAddress' % (kind, CLSNAME[net], 'Confidential' if conf else ''))


def every():
    for net in NETS:
        for kind in KINDS:
            for conf in (False, True):
                yield net, kind, conf


# (getter, network or None for 'the active one', predicate on (kind, conf))
def class_table():
    out = []
    for net in NETS:
        n = CLSNAME[net]
        for kind in KINDS:
            for conf in (False, True):
                out.append((concrete(net, kind, conf), net,
                            lambda k, c, kind=kind, conf=conf: k == kind and c == conf))
        out += [
            (getattr(ew, 'C%sAddress' % n), net, lambda k, c: True),
            (getattr(ew, 'C%sConfidentialAddress' % n), net, lambda k, c: c),
            (getattr(ew, 'CBase58%sAddress' % n), net, lambda k, c: k in B58),
            (getattr(ew, 'CBase58%sConfidentialAddress' % n), net, lambda k, c: k in B58 and c),
            (getattr(ew, 'CBech32%sAddress' % n), net, lambda k, c: k not in B58 and not c),
            (getattr(ew, 'CBlech32%sConfidentialAddress' % n), net,
             lambda k, c: k not in B58 and c),
        ]
    out += [
        (bw.CCoinAddress, None, lambda k, c: True),
        (bw.CBase58CoinAddress, None, lambda k, c: k in B58),
        (bw.CBech32CoinAddress, None, lambda k, c: k not in B58 and not c),
        (ew.CCoinConfidentialAddress, None, lambda k, c: c),
        (ew.CBase58CoinConfidentialAddress, None, lambda k, c: k in B58 and c),
        (ew.CBlech32CoinConfidentialAddress, None, lambda k, c: k not in B58 and c),
    ]
    for kind in KINDS:
        out.append((getattr(bw, kind + 'CoinAddress'), None,
                    lambda k, c, kind=kind: k == kind and not c))
        out.append((getattr(ew, kind + 'CoinConfidentialAddress'), None,
                    lambda k, c, kind=kind: k == kind and c))
    return out


CLASSES = class_table()

# bitcointx cannot dispatch the encoding-level classes of a network that is not
# the active one (TypeError, for its own networks too): they may raise there,
# but must not give a wrong answer
def lenient(cls, cnet, par):
    return (cnet is not None and cnet != par
            and cls.__name__.startswith(('CBase58', 'CBech32', 'CBlech32')))
