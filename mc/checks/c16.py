"""C16 confidential <-> unconfidential address conversions"""
from bitcointx import ChainParams
from bitcointx.core.key import CPubKey
from bitcointx.wallet import CCoinAddress, P2PKHCoinAddress
from elementstx.core.script import CElementsScript
from elementstx.wallet import CCoinConfidentialAddress
import bitcointx.wallet as bw
from .. import ref
from .. import addrspace as a
from ..engine import same, require, raises

PROPERTY = 'C16'
CHUNK = 4
UNCOMP = b'\x04' + b''.join(c.to_bytes(32, 'big') for c in ref.G)
HYBRID = b'\x06' + UNCOMP[1:]
NOT_ON_CURVE = b'\x02' + (5).to_bytes(32, 'big')
BADPUBS = [b'', b'\2', b'\0' * 33, b'\x04' + a.PUBS[0][1:], NOT_ON_CURVE, b'\2' + b'\xff' * 32,
           a.PUBS[0] + b'\0', a.PUBS[0][:-1], a.PUBS[0][1:], b'\x05' + a.PUBS[0][1:], UNCOMP, HYBRID]
CONFCLS = [x for x in a.CLASSES if hasattr(x[0], 'from_unconfidential')]


def bound(tier):
    return ('2 networks x 5 kinds x 6 hashes x 4 blinding keys x 3 active networks x all %d '
            'confidential address classes; %d invalid blinding keys; sources of other networks and '
            'of the wrong sort; chains of conversions of length up to 4' % (len(CONFCLS), len(BADPUBS)))


def cases(tier):
    for net in a.NETS:
        for kind in a.KINDS:
            for i in range(6):
                for p in range(len(a.PUBS)):
                    for par in a.PARAMS:
                        yield ('conv', net, kind, i, p, par)
            for b in range(len(BADPUBS)):
                for par in a.PARAMS:
                    yield ('bad', net, kind, b, par)
            for par in a.PARAMS:
                yield ('size', net, kind, par)
    for par in a.PARAMS:
        for net in a.NETS:
            yield ('redeem', net, par)


def observe_conf(c, net, kind, h, pub):
    want = a.concrete(net, kind, True)
    require(type(c) is want, 'confidential address is a %s, not %s', type(c).__name__,
            want.__name__)
    same(bytes(c), pub + h, 'payload')
    same(str(c), a.encode(net, kind, pub, h), 'string')
    bp = c.blinding_pubkey
    require(type(bp) is CPubKey, 'blinding key is a %s', type(bp).__name__)
    same(bytes(bp), pub, 'blinding key')
    same(bp.is_fullyvalid(), True, 'validity of blinding key')
    spk = c.to_scriptPubKey()
    require(type(spk) is CElementsScript, 'scriptPubKey is a %s', type(spk).__name__)
    same(bytes(spk), a.spk(kind, h), 'scriptPubKey')
    u = c.to_unconfidential()
    observe_unconf(u, net, kind, h)
    return u


def observe_unconf(u, net, kind, h):
    want = a.concrete(net, kind, False)
    require(type(u) is want, 'unconfidential address is a %s, not %s', type(u).__name__,
            want.__name__)
    same(bytes(u), h, 'payload')
    same(str(u), a.encode(net, kind, None, h), 'string')
    same(bytes(u.to_scriptPubKey()), a.spk(kind, h), 'scriptPubKey')


def run(case, rec):
    op = case[0]
    if op == 'conv':
        _, net, kind, i, p, par = case
        h, pub = a.hashes(kind)[i], a.PUBS[p]
        rec.state((net, kind, h, pub))
        with ChainParams(par):
            u = a.concrete(net, kind, False).from_bytes(h)
            for cls, cnet, pred in CONFCLS:
                # base58 and (b|b)lech32 levels of a network that is not active
                # are ordinary classes here: from_unconfidential needs no dispatch
                ok = (cnet or par) == net and pred(kind, True)
                for form in (pub, bytearray(pub), CPubKey(pub)):
                    rec.step()
                    rec.trace()
                    if ok:
                        if a.lenient(cls, cnet, par):
                            try:
                                c = cls.from_unconfidential(u, form)
                            except TypeError:
                                continue
                        else:
                            c = cls.from_unconfidential(u, form)
                        rec.count('converted')
                        observe_conf(c, net, kind, h, pub)
                    else:
                        rec.count('refused')
                        raises('%s.from_unconfidential(%s) under %s'
                               % (cls.__name__, type(u).__name__, par),
                               cls.from_unconfidential, u, form)
            # chains
            cc = a.concrete(net, kind, True)
            x = cc.from_unconfidential(u, pub)
            for p2 in a.PUBS:
                x = cc.from_unconfidential(observe_conf(x, net, kind, h, bytes(x.blinding_pubkey)), p2)
                observe_conf(x, net, kind, h, p2)
                rec.step()
            y = cc(str(x))
            same(x == y, True, 'equality')
            # an address that is already confidential
            raises('from_unconfidential(confidential)', cc.from_unconfidential, x, pub)
            # same script whichever sort of address
            same(bytes(x.to_scriptPubKey()), bytes(u.to_scriptPubKey()), 'script')
            raises('from_scriptPubKey', cc.from_scriptPubKey, u.to_scriptPubKey())
            # sources of another network, strings, raw bytes
            for onet in a.NETS:
                for okind in a.KINDS:
                    if (onet, okind) != (net, kind):
                        o = a.concrete(onet, okind, False).from_bytes(a.hashes(okind)[i])
                        raises('%s from %s' % (cc.__name__, type(o).__name__),
                               cc.from_unconfidential, o, pub)
                        rec.step()
            ob = getattr(bw, kind + 'BitcoinAddress').from_bytes(h)
            raises('from a bitcoin address', cc.from_unconfidential, ob, pub)
            for o in (str(u), h, None, 5):
                raises('from %r' % (o,), cc.from_unconfidential, o, pub)
    elif op == 'bad':
        _, net, kind, b, par = case
        with ChainParams(par):
            u = a.concrete(net, kind, False).from_bytes(a.hashes(kind)[2])
            for cls, cnet, pred in CONFCLS:
                for form in (BADPUBS[b], bytearray(BADPUBS[b]), CPubKey(BADPUBS[b])):
                    raises('%s with blinding key %s' % (cls.__name__, BADPUBS[b].hex()),
                           cls.from_unconfidential, u, form)
                    rec.step()
                    rec.trace()
                raises('no key', cls.from_unconfidential, u, None)
                raises('hex key', cls.from_unconfidential, u, a.PUBS[0].hex())
            if len(BADPUBS[b]) == 33:
                # an address that is made with it in another way shows it as it is
                try:
                    c = a.concrete(net, kind, True).from_bytes(BADPUBS[b] + a.hashes(kind)[2])
                except (ValueError, TypeError):
                    c = None
                if c is not None:
                    same(bytes(c.blinding_pubkey), BADPUBS[b], 'blinding key that is not valid')
                    same(bytes(c.to_unconfidential()), a.hashes(kind)[2], 'unconfidential address of %s' % c)
                    same(str(c), a.encode(net, kind, BADPUBS[b], a.hashes(kind)[2]), 'string')
        rec.state((b, kind, net))
    elif op == 'size':
        # size of an output paying to a confidential address: three 33-byte
        # commitments plus script
        _, net, kind, par = case
        with ChainParams(par):
            n = 3 * 33 + 1 + len(a.spk(kind, a.hashes(kind)[0]))
            cc = a.concrete(net, kind, True)
            same(cc.get_output_size(), n, 'output size of %s' % cc.__name__)
            for i in range(6):
                same(cc.from_bytes(a.PUBS[i % 4] + a.hashes(kind)[i]).get_output_size(), n,
                     'output size of an address')
                rec.step()
                rec.trace()
            # not confidential: no asset, no nonce, an explicit amount, the script
            m = 1 + 9 + 1 + 1 + len(a.spk(kind, a.hashes(kind)[0]))
            uc = a.concrete(net, kind, False)
            same(uc.get_output_size(), m, 'output size of %s' % uc.__name__)
            same(uc.from_bytes(a.hashes(kind)[1]).get_output_size(), m, 'output size of an address')
            for cls, cnet, pred in a.CLASSES:
                if getattr(cls, '_data_length', None) is None:
                    raises('output size of the abstract ' + cls.__name__, cls.get_output_size,
                           exc=(TypeError,))
                    rec.count('classes without an output size')
            # what the addresses are instances of: a confidential address also is
            # one of its unconfidential class, of no other kind and network
            for x, conf in ((uc.from_bytes(a.hashes(kind)[1]), False),
                            (cc.from_bytes(a.PUBS[1] + a.hashes(kind)[1]), True)):
                for cls, cnet, pred in a.CLASSES:
                    name = cls.__name__
                    if name.startswith(('CBase58', 'CBech32', 'CBlech32')):
                        continue
                    want = (cnet is None or cnet == net) and (pred(kind, conf) or pred(kind, False))
                    same(isinstance(x, cls), want, '%s is an instance of %s' % (type(x).__name__, name))
                    rec.step()
            if par == net:
                same(a.concrete(net, kind, True).get_scriptPubKey_type(),
                     a.concrete(net, kind, False).get_scriptPubKey_type(), 'script type') \
                    if kind not in a.B58 else None
        rec.state((net, kind, par))
    else:
        _, net, par = case
        with ChainParams(par):
            for kind in a.KINDS:
                for i in range(6):
                    h = a.hashes(kind)[i]
                    u = a.concrete(net, kind, False).from_bytes(h)
                    c = a.concrete(net, kind, True).from_unconfidential(u, a.PUBS[i % 4])
                    try:
                        want = bytes(u.to_redeemScript())
                    except NotImplementedError:
                        raises('to_redeemScript of %s' % c, c.to_redeemScript,
                               exc=(NotImplementedError,))
                    else:
                        same(bytes(c.to_redeemScript()), want, 'redeem script')
                        exp = {'P2PKH': a.spk('P2PKH', h), 'P2WPKH': a.spk('P2PKH', h)}[kind]
                        same(want, exp, 'redeem script')
                    rec.step()
                    rec.trace()
                    rec.state((net, kind, h))
