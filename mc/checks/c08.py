"""C08 taproot / tapscript signature hash"""
from bitcointx import ChainParams
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, \
    SIGVERSION_WITNESS_V0
from elementstx.core.script import CElementsScript, ElementsSignatureHashSchnorr
from .. import ref, bind, txspace, shspace
from ..engine import same, raises

PROPERTY = 'C08'
HT = (None, 1, 2, 3, 0x81, 0x82, 0x83)
GENESIS = (b'\xa1' * 32, bytes(range(32)))
ANNEX = b'\xb2' * 32
SCRIPTS = (b'\x20' + b'\x07' * 32 + b'\xac', b'', b'\xab\x51')
POS = (-1, 0, 1, 0x7fffffff, -2**31)
PARAMS = ('bitcoin', 'elements', 'elements/liquidv1')
SPENT = (txspace.mk_out(3, a=txspace.A33, v=txspace.VALUES[8], n=txspace.NONCES[3],
                        s=b'\x51\x20' + b'\x09' * 32),
         txspace.mk_out(1, s=b''), txspace.mk_out(2, v=txspace.VALUES[9], a=txspace.B33))
_M = []


def bound(tier):
    return ('every shape of 1..3 inputs x 0..3 outputs (with and without witness entries) and '
            'all %s-deviation neighbours, every 1-field deviation of the spent outputs, every '
            'input index, SIGHASH_DEFAULT and 6 hash types, key path and script path, with and '
            'without annex, %d code separator positions, 3 active networks'
            % ('1' if tier == 'quick' else '2', len(POS)))


def spent_devs(sp):
    for k, o in enumerate(sp):
        for f, alts in enumerate((txspace.ASSETS, txspace.VALUES, txspace.NONCES,
                                  [s for s in txspace.SCRIPTS if len(s) < 300])):
            for a in alts:
                yield sp[:k] + (o[:f] + (a,) + o[f + 1:],) + sp[k + 1:]


def cases(tier):
    for t in shspace.shapes():
        yield ('full', t)
        yield ('spent', t)
        yield ('errors', t)
    for t, d in shspace.neighbourhood(1 if tier == 'quick' else 2):
        yield ('tx', t)


def one(o, t, idx, sp, spo, ht, g, annex, script, pos, rec):
    h = None if ht is None else SIGHASH_Type(ht)
    leaf = None if script is None else ref.tapleaf(script)
    want = ref.sighash_schnorr(t, idx, sp, ht, g, annex, leaf, pos)
    rec.step()
    kw = dict(hashtype=h, annex_hash=annex, genesis_block_hash=g)
    what = 'input %d type %s annex %s script %s codesep %d' % (
        idx, ht, annex is not None, script and script.hex(), pos)
    if script is None:
        calls = [lambda: ElementsSignatureHashSchnorr(o, idx, spo, sigversion=SIGVERSION_TAPROOT,
                                                      **kw)]
    else:
        calls = [lambda: CElementsScript(script).sighash_schnorr(
                     o, idx, spo, codeseparator_pos=pos, **kw),
                 lambda: ElementsSignatureHashSchnorr(
                     o, idx, spo, sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=leaf,
                     codeseparator_pos=pos, **kw)]
    for c in calls:
        if want is None:
            raises(what, c, exc=(ValueError,))
            rec.count('SINGLE without output refused')
        else:
            same(c(), want, what)
            rec.state(want)
        rec.trace()


def run(case, rec):
    kind, t = case
    if not _M:
        _M.append(bind.tx(next(shspace.shapes()), True))
    n = len(t[1])
    sp = (SPENT * n)[:n]
    if kind == 'errors':
        return errors(t, sp, rec)
    spo = [bind.txout(o) for o in sp]
    g = GENESIS[0]
    if kind == 'spent':
        o = bind.tx(t)
        for s in spent_devs(sp):
            so = [bind.txout(x, True) for x in s]
            for idx in range(n):
                for ht in (None, 0x81, 3):
                    if ht != 3 or idx < len(t[2]):
                        one(o, t, idx, s, so, ht, g, None, None, -1, rec)
        return
    objs = [bind.tx(t, False), bind.tx(t, True), shspace.assign(_M[0], t)]
    before = [o.serialize() for o in objs]
    for idx in range(n):
        for ht in HT:
            for o in objs:
                one(o, t, idx, sp, spo, ht, g, None, None, -1, rec)
            one(objs[0], t, idx, sp, spo, ht, g, ANNEX, SCRIPTS[0], 1, rec)
            if kind == 'full':
                for gg in GENESIS:
                    for an in (None, ANNEX):
                        one(objs[0], t, idx, sp, spo, ht, gg, an, None, -1, rec)
                        for s in SCRIPTS:
                            for pos in POS:
                                one(objs[0], t, idx, sp, tuple(spo), ht, gg, an, s, pos, rec)
                for p in PARAMS:
                    with ChainParams(p):
                        one(objs[1], t, idx, sp, spo, ht, g, None, SCRIPTS[0], -1, rec)
                        one(objs[1], t, idx, sp, spo, ht, g, None, None, -1, rec)
    same([o.serialize() for o in objs], before, 'transaction after signature hashing')


def errors(t, sp, rec):
    o = bind.tx(t)
    spo = [bind.txout(x) for x in sp]
    n = len(t[1])
    f = ElementsSignatureHashSchnorr
    g = GENESIS[0]
    E = (ValueError, TypeError)
    for what, a, kw in (
            ('index beyond inputs', (o, n, spo), {}),
            ('negative index', (o, -1, spo), {}),
            ('missing spent output', (o, 0, spo[:-1]), {}),
            ('extra spent output', (o, 0, spo + spo[:1]), {}),
            ('short genesis', (o, 0, spo), dict(genesis_block_hash=g[:-1])),
            ('long genesis', (o, 0, spo), dict(genesis_block_hash=g + b'\0')),
            ('hex genesis', (o, 0, spo), dict(genesis_block_hash=g.hex())),
            ('short annex', (o, 0, spo), dict(annex_hash=b'1' * 31)),
            ('long annex', (o, 0, spo), dict(annex_hash=b'1' * 33)),
            ('no leaf hash', (o, 0, spo), dict(sigversion=SIGVERSION_TAPSCRIPT)),
            ('short leaf hash', (o, 0, spo), dict(sigversion=SIGVERSION_TAPSCRIPT,
                                                  tapleaf_hash=b'1' * 31)),
            ('no code separator position', (o, 0, spo),
             dict(sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=b'1' * 32,
                  codeseparator_pos=None)),
            ('other sigversion', (o, 0, spo), dict(sigversion=SIGVERSION_WITNESS_V0)),
            ('plain int hashtype', (o, 0, spo), dict(hashtype=1))):
        kw = dict(dict(genesis_block_hash=g), **kw)
        raises(what, f, *a, exc=E, **kw)
        rec.state(('error', what, n))
        rec.step()
