"""C14 addresses round-trip, belong to one network and kind, and typos do not parse"""
from bitcointx import ChainParams
from bitcointx.core.script import CScript
from bitcointx.wallet import CCoinAddress
from elementstx.core.script import CElementsScript
from .. import ref
from .. import addrspace as a
from ..engine import same, require, raises

PROPERTY = 'C14'
CHUNK = 2
B58 = ref.B58
STRANGE = ' \t\n0OIl_-\x00\x7fé1b'


def bound(tier):
    return ('2 networks x 5 kinds x confidential or not x %d payloads x 3 active networks x all %d '
            'address classes; every single-character substitution, deletion, insertion, adjacent '
            'swap and truncation of %d strings per kind%s; every one- and two-byte version prefix; '
            'payload lengths' % (6, len(a.CLASSES), 1 if tier == 'quick' else 6,
                                 '' if tier == 'quick' else '; all pairs of '
                                 'neighbouring substitutions'))


def cases(tier):
    for net, kind, conf in a.every():
        for i in range(6):
            for par in a.PARAMS:
                yield ('rt', net, kind, conf, i, par)
    for net, kind, conf in a.every():
        for i in range(1 if tier == 'quick' else 6):
            s = string(net, kind, conf, 4 + i)
            for pos in range(len(s) + 1):
                yield ('typo', net, kind, conf, 4 + i, pos)
            if tier == 'thorough' and i < 2:
                for pos in range(len(s) - 1):
                    yield ('typo2', net, kind, conf, 4 + i, pos)
    for k in range(256):
        yield ('prefix', k)
    for par in a.PARAMS:
        yield ('lengths', par)
        yield ('junk', par)


def fields(net, kind, conf, i):
    h = a.hashes(kind)[i % 6]
    return net, kind, a.PUBS[(i + len(kind)) % 4] if conf else None, h


def string(net, kind, conf, i):
    return a.encode(*fields(net, kind, conf, i))


def payload(f):
    return (f[2] or b'') + f[3]


def expect_type(f):
    return a.concrete(f[0], f[1], f[2] is not None)


def observe(inst, f, s):
    want = expect_type(f)
    require(type(inst) is want, '%s parsed as %s, the model says %s', s, type(inst).__name__,
            want.__name__)
    same(bytes(inst), payload(f), 'payload of %s' % s)
    same(str(inst), s, 'string')
    same(bytes(inst.to_scriptPubKey()), a.spk(f[1], f[3]), 'scriptPubKey of %s' % s)
    require(type(inst.to_scriptPubKey()) is CElementsScript, 'scriptPubKey of %s is a %s', s,
            type(inst.to_scriptPubKey()).__name__)


def roundtrip(case, rec):
    _, net, kind, conf, i, par = case
    f = fields(net, kind, conf, i)
    s = a.encode(*f)
    assert a.decode(s) == f, (f, s)
    rec.state(s)
    forms = [s]
    if kind not in a.B58:
        forms.append(s.upper())
    with ChainParams(par):
        for cls, cnet, pred in a.CLASSES:
            accepted = (cnet or par) == net and pred(kind, conf)
            for form in forms:
                rec.step()
                rec.trace()
                if accepted and a.lenient(cls, cnet, par):
                    try:
                        inst = cls(form)
                    except TypeError:
                        continue
                    observe(inst, f, s)
                elif accepted:
                    observe(cls(form), f, s)
                    rec.count('accepted')
                else:
                    raises('%s(%s) under %s' % (cls.__name__, form, par), cls, form)
                    rec.count('rejected')
        # construction from the bytes, repr, equality and hash
        cls = expect_type(f)
        x = cls.from_bytes(payload(f))
        observe(x, f, s)
        require(s in repr(x), 'repr')
        same(x == cls(s), True, 'equality')
        same(hash(x), hash(cls(s)), 'hash')
        # from the scriptPubKey
        spk = a.spk(kind, f[3])
        for cls, cnet, pred in a.CLASSES:
            for stype in (CElementsScript, CScript):
                if stype is CScript and not (cnet or par).startswith('elements'):
                    continue
                if (cnet or par) == net and pred(kind, False) and not conf:
                    got = cls.from_scriptPubKey(CElementsScript(spk))
                    observe(got, f, s)
                elif (cnet or par).startswith('elements') and not pred(kind, False):
                    raises('%s.from_scriptPubKey(%s)' % (cls.__name__, spk.hex()),
                           cls.from_scriptPubKey, CElementsScript(spk))
                rec.step()


def probe(t, rec, par, classes):
    want = a.decode(t)
    rec.step()
    rec.trace()
    rec.state(t)
    for cls, cnet, pred in classes:
        if want is not None and (cnet or par) == want[0] and pred(want[1], want[2] is not None):
            rec.count('neighbours that are addresses')
            try:
                inst = cls(t)
            except TypeError:
                require(a.lenient(cls, cnet, par), '%s(%s) raised TypeError', cls.__name__, t)
                continue
            observe(inst, want, t.lower() if want[1] not in a.B58 else t)
        else:
            raises('%s(%s)' % (cls.__name__, t), cls, t)


def neighbours(s, pos, abc):
    if pos < len(s):
        for c in abc:
            if c != s[pos]:
                yield s[:pos] + c + s[pos + 1:]
        yield s[:pos] + s[pos + 1:]
        yield s[:pos]
        yield s[:pos] + s[pos].swapcase() + s[pos + 1:]
        if pos + 1 < len(s):
            yield s[:pos] + s[pos + 1] + s[pos] + s[pos + 2:]
        for c in STRANGE:
            yield s[:pos] + c + s[pos + 1:]
        yield s[pos:]
        yield s[:pos].upper() + s[pos:]
    for c in abc:
        yield s[:pos] + c + s[pos:]


def few(net, kind, conf):
    exact = a.concrete(net, kind, conf)
    return [x for x in a.CLASSES if x[0] in (exact, CCoinAddress)]


def run(case, rec):
    op = case[0]
    if op == 'rt':
        roundtrip(case, rec)
    elif op in ('typo', 'typo2'):
        _, net, kind, conf, i, pos = case
        s = string(net, kind, conf, i)
        abc = B58 if kind in a.B58 else ref.CHARSET
        classes = few(net, kind, conf)
        with ChainParams(net):
            if op == 'typo':
                for t in neighbours(s, pos, abc):
                    if t != s and t:
                        probe(t, rec, net, classes)
            else:
                for c in abc:
                    for d in abc:
                        t = s[:pos] + c + d + s[pos + 2:]
                        if t != s:
                            probe(t, rec, net, classes[:1])
    elif op == 'prefix':
        k = case[1]
        h = a.hashes('P2PKH')[4]
        for net in a.NETS:
            with ChainParams(net):
                cl = [x for x in a.CLASSES if x[0] is CCoinAddress]
                probe(ref.b58check_enc(bytes([k]) + h), rec, net, cl)
                for j in range(256):
                    if k in (4, 12) or j in (235, 75, 57, 39) or j == k:
                        probe(ref.b58check_enc(bytes([k, j]) + a.PUBS[1] + h), rec, net, cl)
    elif op == 'lengths':
        par = case[1]
        with ChainParams(par):
            cl = [x for x in a.CLASSES if x[0] is CCoinAddress or x[1] is not None]
            body = ref.sha256(b'q') * 3
            for net in a.NETS:
                for kind in a.KINDS:
                    for n in list(range(0, 81)):
                        if kind in a.B58:
                            for pre in (bytes([a.P58[net, kind]]),
                                        bytes([a.CONF58[net], a.P58[net, kind]])):
                                if n > 60:
                                    continue
                                probe(ref.b58check_enc(pre + body[:n]), rec, par, cl)
                        else:
                            for v in (0, 1, 2, 16, 17):
                                for codec, hrp in ((ref.BECH32, a.HRP[net][0]),
                                                   (ref.BLECH32, a.HRP[net][1])):
                                    probe(codec.encode(hrp, v, body[:n]), rec, par, cl)
                for kind in a.KINDS:
                    for conf in (False, True):
                        cls = a.concrete(net, kind, conf)
                        size = a.SIZE[kind] + (33 if conf else 0)
                        for n in range(0, 80):
                            rec.step()
                            if n == size:
                                p = body[:n]
                                f = (net, kind, p[:33] if conf else None, p[33:] if conf else p)
                                observe(cls.from_bytes(p), f, a.encode(*f))
                            else:
                                raises('%s.from_bytes of %d bytes' % (cls.__name__, n),
                                       cls.from_bytes, body[:n])
    else:
        par = case[1]
        with ChainParams(par):
            for cls, cnet, pred in a.CLASSES:
                for s in ('', ' ', '1', '1' * 40, 'ert1', 'el1', 'lq1', 'ex1', 'é', None, 5, b'x',
                          b'ert1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq', 'q' * 2000):
                    raises('%s(%r)' % (cls.__name__, s), cls, s)
                    rec.step()
                    rec.trace()
