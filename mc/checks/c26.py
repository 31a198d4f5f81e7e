"""C26 printed forms are complete and can be read back"""
import bitcointx.core as bc
import bitcointx.core.script as bscript
import elementstx.core as ec
import elementstx.core.script as es
from bitcointx import ChainParams
from bitcointx.core import Uint256
from .. import ref, bind, txspace
from ..engine import same, require, bfs, Violation

PROPERTY = 'C26'
ASSUMPTIONS = ['in printed forms, asset ids are hex strings and hashes byte strings (which the constructors '
               'do not take); scripts are printed by bitcointx']
NETS = ('elements', 'elements/liquidv1', 'bitcoin')
LENS = (0, 1, 76, 253)


def script(data):
    """a script that consists of one push in its shortest form"""
    n = len(data)
    if n == 0:
        return b''
    if n == 1:
        return b'\x51'
    return bytes([n]) + data if n < 76 else b'\x4c' + bytes([n]) + data if n < 256 else \
        b'\x4d' + n.to_bytes(2, 'little') + data if n < 65536 else b'\x4e' + n.to_bytes(4, 'little') + data


def tidy(t):
    """scripts that can be printed and read back"""
    return (t[0], tuple(i[:2] + (script(i[2]),) + i[3:] for i in t[1]),
            tuple(o[:3] + (script(o[3]),) for o in t[2])) + t[3:]


class Asset(ec.CAsset):
    def __init__(self, data):
        super().__init__(bytes.fromhex(data)[::-1] if isinstance(data, str) else data)


def issuance(*a, **kw):
    def conv(v):
        return Uint256(v) if isinstance(v, bytes) else v
    return ec.CAssetIssuance(*map(conv, a), **{k: conv(v) for k, v in kw.items()})


SPACE = dict(vars(bscript))
for _m in (bc, es, ec):
    SPACE.update({k: v for k, v in vars(_m).items() if not k.startswith('_')})
SPACE.update(CAsset=Asset, CAssetIssuance=issuance)


def bound(tier):
    return ('%d bases and every deviation of %s of their fields%s, mutable and immutable, under 3 networks; all '
            'parts of each; all amounts and assets of the alphabets' % (
                5, 'one' if tier == 'quick' else 'one or two',
                '' if tier == 'quick' else ' (lengths %s)' % (LENS,)))


def cases(tier):
    for k in range(5):
        b = list(txspace.bases())[k]
        ts = [t for t, _ in bfs([b], lambda t: txspace.deviations(t, None if tier == 'quick' else LENS), 1)]
        for lo in range(0, len(ts), 20):
            yield ('tx', k, lo, lo + 20)
        if tier != 'quick':
            for i in range(len(ts)):
                yield ('two', k, i)
    for k in range(0, 1 << 4):
        yield ('iss', k)
    yield ('big',)
    yield ('scripts',)
    yield ('values',)


def read(o, what):
    s = repr(o)
    try:
        return eval(s, dict(SPACE))
    except Exception as e:
        raise Violation('%s: %s cannot be read back: %s %s' % (what, s[:300], type(e).__name__, e))




def part(o, un, want, what):
    v = read(o, what)
    same(type(v), type(o), what + ': class read back')
    same(un(v), want, '%s: value read back from %s' % (what, repr(o)[:300]))
    require(v == o, '%s: not equal to what was read back', what)


def check(t, mut, net, rec):
    x = bind.tx(t, mut)
    with ChainParams(net):
        what = 'transaction %s' % ref.enc_tx(t).hex()[:200]
        want = bind.un_tx(x)
        part(x, bind.un_tx, want, what)
        s = str(x)
        for k, o in enumerate(t[2]):
            # the short form shows amounts and assets that are explicit, and says which ones are not
            so = str(x.vout[k])
            require(so in s, '%s: output %d is not in the text of the transaction', what, k)
            show(so, 'CConfidentialValue', o[1], lambda v: str(int.from_bytes(v, 'big', signed=True)), what)
            show(so, 'CConfidentialAsset', o[0], lambda v: v[::-1].hex(), what)
        for k, i in enumerate(x.vin):
            require(str(i) in s, '%s: input %d is not in the text of the transaction', what, k)
    rec.step()


def show(s, name, v, form, what):
    if v[:1] == b'\x01':
        require(form(v[1:]) in s, '%s: explicit %s %s missing in %s', what, name, v.hex(), s)
    else:
        require(name + '(CONFIDENTIAL)' in s, '%s: %s is not shown as confidential in %s', what, name, s)
        require(not v or v[1:].hex() not in s, '%s: commitment in the short form', what)


def parts(t, mut, rec):
    x = bind.tx(t, mut)
    for k, i in enumerate(x.vin):
        part(i, bind.un_txin, t[1][k], 'input %r' % (t[1][k],))
        part(i.assetIssuance, bind.un_issuance, t[1][k][4], 'issuance %r' % (t[1][k][4],))
        part(i.prevout, lambda p: (bytes(p.hash), p.n), t[1][k][:2], 'outpoint')
    for k, o in enumerate(x.vout):
        part(o, bind.un_txout, t[2][k], 'output %r' % (t[2][k],))
        for c, j in ((o.nAsset, 0), (o.nValue, 1), (o.nNonce, 2)):
            part(c, lambda v: bytes(v.commitment), t[2][k][j], 'field %d of an output' % j)
    for k, w in enumerate(x.wit.vtxinwit):
        part(w, bind.un_inwit, ref.inwit(t, k), 'witness of input %d' % k)
    for k, w in enumerate(x.wit.vtxoutwit):
        part(w, bind.un_outwit, ref.outwit(t, k), 'witness of output %d' % k)
    part(x.wit, bind.un_wit, bind.un_wit(x.wit), 'witness')
    rec.step()


def run(case, rec):
    rec.state(case)
    if case[0] == 'tx':
        _, k, lo, hi = case
        b = list(txspace.bases())[k]
        ts = [t for t, _ in bfs([b], lambda t: txspace.deviations(t), 1)]
        for j, t in enumerate(ts[lo:hi]):
            t = tidy(t)
            for mut in (False, True):
                check(t, mut, NETS[j % 3], rec)
                parts(t, mut, rec)
                rec.trace()
    elif case[0] == 'two':
        _, k, i = case
        b = list(txspace.bases())[k]
        t = [t for t, _ in bfs([b], lambda t: txspace.deviations(t, LENS), 1)][i]
        for u in txspace.deviations(t, LENS):
            u = tidy(u)
            check(u, False, 'elements', rec)
            rec.trace()
    elif case[0] == 'iss':
        # every subset of the fields
        k = case[1]
        n, e = (txspace.H[3] if k & 1 else ref.Z32), (txspace.H[4] if k & 2 else ref.Z32)
        vs = [v for v in txspace.VALUES if bool(v) == bool(k & 4)]
        ws = [v for v in txspace.VALUES if bool(v) == bool(k & 8)]
        for v in vs:
            for w in ws:
                i = (n, e, v, w)
                part(bind.issuance(i), bind.un_issuance, i, 'issuance %r' % (i,))
                s = str(bind.issuance(i))
                for q in (v, w):
                    q and show(s, 'CConfidentialValue', q, lambda v: str(int.from_bytes(v, 'big', signed=True)), 'issuance')
                rec.step()
                rec.trace()
        # fields of which one byte is not zero
        for j in range(32):
            one = bytes(255 * (q == j) for q in range(32))
            i = (one if k & 1 else ref.Z32, one if k & 2 else ref.Z32,
                 txspace.val(1 << 8 * (j % 8) & ~(1 << 63)) if k & 4 else b'', txspace.val(1 << 8 * (j // 4)) if k & 8 else b'')
            part(bind.issuance(i), bind.un_issuance, i, 'issuance %r' % (i,))
            t = txspace.mk_in(1, iss=i)
            part(bind.txin(t), bind.un_txin, t, 'input %r' % (t,))
            rec.step()
    elif case[0] == 'big':
        for t in txspace.big():
            t = tidy(t)
            check(t, False, 'elements', rec)
            rec.trace()
    elif case[0] == 'scripts':
        # whatever the script is, printing it works and shows which one it is
        seen = {}
        pool = [b'', b'\x00', b'\x51', b'\xfe', b'\x4c', b'\x4c\x05', b'\x02\x01', b'\x6a', b'\x4d\xff', b'\x4e\0\0\0\0']
        pool += [bytes([n]) for n in range(256)] + [bytes([n, 0x51]) for n in range(256)]
        for s in dict.fromkeys(pool):
            x = es.CElementsScript(s)
            o = bind.txout((b'', b'', b'', s))
            i = bind.txin(txspace.mk_in(sig=s))
            for y in (o, i):
                str(y)
                r = repr(y)
                require(repr(x) in r, 'script %s missing in %s', s.hex(), r)
            rec.step()
        rec.trace()
    elif case[0] == 'values':
        for n in sorted({0, 1, 21 * 10**14, 2**63 - 1} | {1 << k for k in range(63)}):
            v = ec.CConfidentialValue(n)
            part(v, lambda v: bytes(v.commitment), b'\x01' + n.to_bytes(8, 'big'), 'amount %d' % n)
            same(str(v), 'CConfidentialValue(%d)' % n, 'text of an amount')
            rec.step()
        for h in txspace.H:
            a = ec.CAsset(h)
            same(bytes(read(a, 'asset').data), h, 'asset')
            part(ec.CConfidentialAsset(a), lambda v: bytes(v.commitment), b'\x01' + h, 'asset')
        for name in ('BlindingFailure', 'UnblindingFailure'):
            for m in ('x', 'some "reason"'):
                f = getattr(ec, name)(m)
                require(name in str(f) and m in str(f), 'text of a failure')
        rec.trace()
