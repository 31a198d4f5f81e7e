"""C06 segwit v0 signature hash"""
from bitcointx import ChainParams
from bitcointx.core.script import (SIGHASH_Type, SIGVERSION_WITNESS_V0, CScript)
from elementstx.core import CConfidentialValue
from elementstx.core.script import CElementsScript, RawElementsSignatureHash
from .. import ref, bind, txspace, shspace
from ..engine import same, raises

PROPERTY = 'C06'
HT = (1, 2, 3, 0x81, 0x82, 0x83)
SPK = b'\x76\xa9\x14' + b'\x11' * 20 + b'\x88\xac'
AMOUNT = txspace.VALUES[8]
SCRIPTS = [SPK, b'', b'\xab', b'\x01\xab\xab\x51'] + txspace.SCRIPTS
PARAMS = ('bitcoin', 'elements', 'elements/liquidv1')
_M = []


def bound(tier):
    return ('every shape of 1..3 inputs x 0..3 outputs and all %s-deviation neighbours, every '
            'input index, all 6 hash types, %d amounts, %d scripts, immutable / mutable / '
            'rewritten-in-place transactions, 3 active networks'
            % ('1' if tier == 'quick' else '2', len(txspace.VALUES), len(SCRIPTS)))


def cases(tier):
    for t in shspace.shapes():
        yield ('full', t)
    for t, d in shspace.neighbourhood(1 if tier == 'quick' else 2):
        yield ('tx', t)


def compare(objs, t, idx, ht, amount, script, rec):
    want = ref.sighash_v0(script, t, idx, ht, amount)
    rec.state(want)
    s = CElementsScript(script)
    a = CConfidentialValue(amount)
    for o in objs:
        what = 'sighash(input %d, type %#x, amount %s, script %s)' % (
            idx, ht, amount.hex(), script[:80].hex())
        same(s.sighash(o, idx, SIGHASH_Type(ht), amount=a, sigversion=SIGVERSION_WITNESS_V0),
             want, what)
        rec.step()
        rec.trace()
    same(s.raw_sighash(objs[0], idx, SIGHASH_Type(ht), amount=a,
                       sigversion=SIGVERSION_WITNESS_V0), (want, None), 'raw_' + what)
    same(RawElementsSignatureHash(CScript(script), objs[0], idx, SIGHASH_Type(ht), amount=a,
                                  sigversion=SIGVERSION_WITNESS_V0), (want, None), 'function')


def run(case, rec):
    kind, t = case
    if not _M:
        _M.append(bind.tx(next(shspace.shapes()), True))
    objs = [bind.tx(t, False), bind.tx(t, True), shspace.assign(_M[0], t)]
    before = [o.serialize() for o in objs]
    for idx in range(len(t[1])):
        for ht in HT:
            compare(objs, t, idx, ht, AMOUNT, SPK, rec)
            if kind == 'full':
                for a in txspace.VALUES:
                    compare(objs[:1], t, idx, ht, a, SPK, rec)
                for s in SCRIPTS:
                    compare(objs[:1], t, idx, ht, AMOUNT, s, rec)
                for p in PARAMS:
                    with ChainParams(p):
                        compare(objs[:1], t, idx, ht, AMOUNT, SPK, rec)
        if kind == 'full':
            s = CElementsScript(SPK)
            for bad in (None, 5, b'\1' + b'\0' * 8):
                raises('amount %r' % (bad,), s.sighash, objs[0], idx, SIGHASH_Type(1),
                       amount=bad, sigversion=SIGVERSION_WITNESS_V0)
    same([o.serialize() for o in objs], before, 'transaction after sighash()')
