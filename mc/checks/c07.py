"""C07 legacy (pre-segwit) signature hash"""
from bitcointx import ChainParams
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_BASE, CScript
from elementstx.core import CConfidentialValue
from elementstx.core.script import CElementsScript, RawElementsSignatureHash
from .. import ref, bind, txspace, shspace
from ..engine import same, raises

PROPERTY = 'C07'
ASSUMPTIONS = ['well-formed scripts only: removing OP_CODESEPARATOR from a script with a '
               'truncated push fails in python-bitcointx']
HT = (1, 2, 3, 0x81, 0x82, 0x83)
SPK = b'\x76\xa9\x14' + b'\x11' * 20 + b'\x88\xac'
# code separators in and outside of push data, at both ends, repeated
SCRIPTS = [SPK, b'', b'\xab', b'\xab\xab', b'\x51\xab\x52', b'\x01\xab\xab\x51', b'\xab\x51',
           b'\x4c\x02\xab\xab\xab\x51', b'\x4d\x01\x00\xab\xab', b'\x02\xab\xab\x51\xab\xac\xab'
           ] + [b'\x51' * n for n in (1, 75, 252, 253, 254)] + [
    b'\x4d\xff\xff' + b'\xab' * 65535 + b'\xab']
PARAMS = ('bitcoin', 'elements', 'elements/liquidv1')
_M = []
CHUNK = 2


def bound(tier):
    return ('every shape of 1..3 inputs x 0..3 outputs and all %s-deviation neighbours, every '
            'input index and one beyond, all 6 hash types, %d scripts, immutable / mutable / '
            'rewritten-in-place transactions, 3 active networks'
            % ('1' if tier == 'quick' else '2', len(SCRIPTS)))


def cases(tier):
    for t in shspace.shapes():
        yield ('full', t)
    for t, d in shspace.neighbourhood(1 if tier == 'quick' else 2, tier == 'quick'):
        yield ('tx', t)


def compare(objs, t, idx, ht, script, rec, full=True):
    want, err = ref.sighash_legacy(script, t, idx, ht)
    rec.state((want, err))
    s = CElementsScript(script)
    what = 'sighash(input %d, type %#x, script %s)' % (idx, ht, script[:80].hex())
    for o in objs:
        got, gerr = s.raw_sighash(o, idx, SIGHASH_Type(ht), sigversion=SIGVERSION_BASE)
        same((got, gerr is not None), (want, err), 'raw_' + what)
        if o is not objs[-1]:
            continue
        if err:
            raises(what, s.sighash, o, idx, SIGHASH_Type(ht), exc=(ValueError,))
        else:
            same(s.sighash(o, idx, SIGHASH_Type(ht)), want, what)
    rec.step(len(objs))
    rec.trace(len(objs))
    if not full:
        return
    o = objs[0]
    got, gerr = RawElementsSignatureHash(CScript(script), o, idx, SIGHASH_Type(ht))
    same((got, gerr is not None), (want, err), 'function')
    # the amount has no influence
    got, gerr = s.raw_sighash(o, idx, SIGHASH_Type(ht), amount=CConfidentialValue(5))
    same((got, gerr is not None), (want, err), 'with amount')


def run(case, rec):
    kind, t = case
    if not _M:
        _M.append(bind.tx(next(shspace.shapes()), True))
    objs = [bind.tx(t, False), bind.tx(t, True), shspace.assign(_M[0], t)]
    before = [o.serialize() for o in objs]
    for idx in range(len(t[1]) + 1):
        for ht in HT:
            compare(objs, t, idx, ht, SPK, rec, kind == 'full')
            if kind == 'full':
                for s in SCRIPTS:
                    compare(objs[:1], t, idx, ht, s, rec, False)
                for p in PARAMS:
                    with ChainParams(p):
                        compare(objs[:2], t, idx, ht, SPK, rec, False)
    same([o.serialize() for o in objs], before, 'transaction after sighash()')
