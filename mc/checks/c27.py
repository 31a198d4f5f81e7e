"""C27 signed inputs pass script verification, and altered ones do not"""
from bitcointx import ChainParams
from bitcointx.core import ValidationError
from bitcointx.core.key import CKey
from bitcointx.core.script import CScriptWitness
from bitcointx.core.scripteval import VerifyScript, VerifySignature, SCRIPT_VERIFY_P2SH, SCRIPT_VERIFY_WITNESS
from elementstx.core import CConfidentialValue
from elementstx.core.script import CElementsScript
from .. import ref, bind, txspace, shspace
from ..engine import same, require, Violation

PROPERTY = 'C27'
CHUNK = 4
ASSUMPTIONS = ['ECDSA and the script interpreter of python-bitcointx are part of the system under test; which '
               'signature is over which hash is decided by the reference model']
HT = (1, 2, 3, 0x81, 0x82, 0x83)
NETS = ('elements', 'elements/liquidv1')
SECRETS = tuple(ref.sha256(b'c27-%d' % k) for k in range(3))
PUBS = tuple(ref.pub_ser(ref.ec_mul(int.from_bytes(s, 'big'), ref.G)) for s in SECRETS)
AMOUNTS = tuple(txspace.val(n) for n in (0, 1, 21 * 10**14, 2**63 - 1)) + (
    b'\x08' + b'\x31' * 32, b'\x09' + b'\x32' * 32)
FLAGS = (None, {SCRIPT_VERIFY_P2SH, SCRIPT_VERIFY_WITNESS})


def push(b):
    return bytes([len(b)]) + b if len(b) < 76 else b'\x4c' + bytes([len(b)]) + b


def h160(b):
    return ref.ripemd160(ref.sha256(b))


def p2sh(s):
    return b'\xa9\x14' + h160(s) + b'\x87'


def p2wsh(s):
    return b'\x00\x20' + ref.sha256(s)


PKH = b'\x76\xa9\x14' + h160(PUBS[0]) + b'\x88\xac'
WPKH = b'\x00\x14' + h160(PUBS[0])
PK = push(PUBS[1]) + b'\xac'
SEP = b'\x51\x75\xab' + PK
MULTI = b'\x52' + b''.join(map(push, PUBS)) + b'\x53\xae'
# (code separators in witness scripts are not handled correctly by python-bitcointx)
BOTH = push(PUBS[0]) + b'\xad' + push(PUBS[2]) + b'\xac'
VERIFY = push(PUBS[0]) + b'\xad' + b'\xab' + push(PUBS[2]) + b'\xac'

# name: script pubkey, segwit?, [(key, signed script)], signatures -> (scriptSig, witness stack)
KINDS = {
    'p2pk': (PK, False, [(1, PK)], lambda s: (push(s[0]), None)),
    'p2pkh': (PKH, False, [(0, PKH)], lambda s: (push(s[0]) + push(PUBS[0]), None)),
    'multisig': (MULTI, False, [(0, MULTI), (2, MULTI)], lambda s: (b'\0' + push(s[0]) + push(s[1]), None)),
    'separator': (SEP, False, [(1, PK)], lambda s: (push(s[0]), None)),
    'p2sh': (p2sh(MULTI), False, [(1, MULTI), (2, MULTI)],
             lambda s: (b'\0' + push(s[0]) + push(s[1]) + push(MULTI), None)),
    'p2sh of two parts': (p2sh(VERIFY), False, [(0, VERIFY), (2, push(PUBS[2]) + b'\xac')],
                          lambda s: (push(s[1]) + push(s[0]) + push(VERIFY), None)),
    'p2wpkh': (WPKH, True, [(0, PKH)], lambda s: (b'', [s[0], PUBS[0]])),
    'p2sh-p2wpkh': (p2sh(WPKH), True, [(0, PKH)], lambda s: (push(WPKH), [s[0], PUBS[0]])),
    'p2wsh': (p2wsh(MULTI), True, [(0, MULTI), (1, MULTI)], lambda s: (b'', [b'', s[0], s[1], MULTI])),
    'p2sh-p2wsh': (p2sh(p2wsh(BOTH)), True, [(0, BOTH), (2, BOTH)],
                   lambda s: (push(p2wsh(BOTH)), [s[1], s[0], BOTH])),
}
LENS = (0, 76)


def bound(tier):
    return ('%d kinds of outputs x 6 hash types x every input of transactions of %s; all one-field '
            'alterations of the transaction%s, all other amounts and hash types, all other inputs' % (
                len(KINDS), '(inputs, outputs) in (1,1), (2,1), (2,2)' if tier == 'quick' else
                '1..3 inputs and 0..3 outputs',
                '' if tier == 'quick' else ', two-field alterations of one of them'))


def shapes(tier):
    for k, t in enumerate(shspace.shapes()):
        if tier == 'thorough' or (len(t[1]), len(t[2]), t[0]) in ((1, 1, 1), (2, 1, 1), (2, 2, 2)):
            yield k, t


def cases(tier):
    for k, t in shapes(tier):
        for idx in range(len(t[1])):
            for kind in KINDS:
                yield ('one', k, idx, kind)
                if tier == 'thorough' and k == 8:
                    yield ('two', k, idx, kind)


def hashes(kind, t, idx, ht, amount):
    _, segwit, sigs, _ = KINDS[kind]
    return [ref.sighash_v0(s, t, idx, ht, amount) if segwit else ref.sighash_legacy(s, t, idx, ht)[0]
            for _, s in sigs]


def funding(kind, n, amount):
    """a transaction whose output n is locked"""
    outs = tuple(txspace.mk_out(j) for j in range(n)) + (txspace.mk_out(n, v=amount, s=KINDS[kind][0]),
                                                        txspace.mk_out(n + 1))
    return (2, (txspace.mk_in(7),), outs, 0, ref.NO_WIT)


def put(t, idx, ssig, wstack):
    vin = t[1][:idx] + (t[1][idx][:2] + (ssig,) + t[1][idx][3:],) + t[1][idx + 1:]
    wit = t[4]
    if wstack is not None or wit != ref.NO_WIT:
        inw = [ref.inwit(t, k) for k in range(len(vin))]
        inw[idx] = (tuple(wstack or ()),) + inw[idx][1:]
        wit = (tuple(inw), tuple(ref.outwit(t, k) for k in range(len(t[2]))))
    return (t[0], vin, t[2], t[3], wit)


def accepted(fn, *a, **kw):
    try:
        r = fn(*a, **kw)
    except ValidationError:
        return False
    except Exception as e:
        raise Violation('verification broke with %s: %s' % (type(e).__name__, e))
    same(r, None, 'result of verification')
    return True


def run(case, rec):
    op, k, idx, kind = case
    spk, segwit, who, build = KINDS[kind]
    t = list(shspace.shapes())[k]
    amount = AMOUNTS[(k + idx) % len(AMOUNTS)]
    n = min(t[1][idx][1], 2)
    fund = funding(kind, n, amount)
    i = t[1][idx]
    t = (t[0], t[1][:idx] + ((ref.txid(fund), n) + i[2:],) + t[1][idx + 1:]) + t[2:]
    keys = [CKey.from_secret_bytes(s) for s in SECRETS]
    objfund = bind.tx(fund)
    out = objfund.vout[n]
    for ht in HT:
        want = hashes(kind, t, idx, ht, amount)
        sigs = [keys[w].sign(h) + bytes([ht]) for (w, _), h in zip(who, want)]
        ssig, wstack = build(sigs)
        signed = put(t, idx, ssig, wstack)
        what = '%s output, input %d, hash type %#x, transaction %s' % (kind, idx, ht, ref.enc_tx(signed).hex()[:300])
        w = None if wstack is None else CScriptWitness(wstack)

        def verify(o, j=idx, am=out.nValue, flags=None, w=w, o2=None):
            return accepted(VerifyScript, o.vin[idx].scriptSig if o2 is None else o2, out.scriptPubKey, o, j,
                            flags=flags, amount=am, witness=w)
        if op == 'one':
            for mut in (False, True):
                o = bind.tx(signed, mut)
                before = o.serialize()
                received = type(o).deserialize(before)
                for net in NETS:
                    with ChainParams(net):
                        for fl in FLAGS:
                            require(verify(o, flags=fl), 'a signed input is not accepted: ' + what)
                        # (the function itself does not allow for the absence of witnesses)
                        require(len(received.wit.vtxinwit) <= idx or accepted(VerifySignature, objfund,
                                                                              received, idx),
                                'VerifySignature does not accept a signed input: ' + what)
                        rec.step(3)
                same(o.serialize(), before, 'transaction after verification')
            # the same signature in another place
            ss = o.vin[idx].scriptSig
            for j in range(len(t[1])):
                if j != idx:
                    same(verify(o, j, o2=ss), hashes(kind, signed, j, ht, amount) == want,
                         'verified at input %d: %s' % (j, what))
                    rec.step()
            # with another amount
            for a in AMOUNTS + tuple(txspace.VALUES[1:4]):
                same(verify(o, am=CConfidentialValue(a)), not segwit or a == amount,
                     'verified with the amount %s: %s' % (a.hex(), what))
                rec.step()
            # with another hash type
            for other in HT:
                ss2, ws2 = build([s[:-1] + bytes([other]) for s in sigs])
                same(verify(o, o2=CElementsScript(ss2), w=None if ws2 is None else CScriptWitness(ws2)),
                     hashes(kind, signed, idx, other, amount) == want, 'verified with hash type %#x: %s' % (other, what))
                rec.step()
            rec.state((kind, idx, ht, ref.txid(signed)))
            rec.trace()
        alts = txspace.deviations(signed, LENS)
        if op == 'two':
            alts = (b for a in txspace.deviations(signed, (1,), (0,)) for b in txspace.deviations(a, (1,), (0,)))
        for a in alts:
            if len(a[1]) <= idx or a[1][idx][2] != ssig:
                continue
            a = txspace.fix(a)
            expect = hashes(kind, a, idx, ht, amount) == want
            require(verify(bind.tx(a, ht & 1)) is expect,
                    'after an alteration the input is %s: %s; altered: %s', 'rejected' if expect else 'accepted',
                    what, ref.enc_tx(a).hex()[:600])
            rec.count('alterations that leave the signature valid' if expect else 'alterations that invalidate it')
            rec.state((kind, ht, ref.enc_tx(a)))
            rec.step()
        rec.trace()
