"""C18 fee outputs, peg-out outputs and unspendable scripts are recognised"""
import itertools
from bitcointx import ChainParams
from elementstx.core.script import CElementsScript
from .. import ref, bind, txspace, vectors
from ..engine import same, require, raises

PROPERTY = 'C18'
A = bytes(range(1, 34))
TOKENS = [b'\x6a', b'\x20' + A[:32], b'\x01\x51', b'\x00', b'\x51', b'\x1f' + A[:31],
          b'\x21' + A[:33], b'\x4c\x20' + A[:32], b'\x4d\x20\x00' + A[:32],
          b'\x4e\x20\x00\x00\x00' + A[:32], b'\x4c\x00', b'\x4d\x00\x00', b'\x4e\0\0\0\0',
          b'\x4f', b'\x60', b'\x61', b'\x76', b'\xac', b'\xff', b'\x50', b'\xc0',
          # truncated when last
          b'\x02\x01', b'\x4c', b'\x4d\x01', b'\x4e\x00\x00\x00', b'\x4e\xff\xff\xff\xff',
          b'\x4c\xff', b'\x4d\x20\x00' + A[:31], b'\x4b' + b'\x52' * 75]
LEAD = TOKENS[:1] + [b'\x20' + A[:32]]


def bound(tier):
    return ('all sequences of at most %d tokens out of %d (all push encodings, non-push opcodes, '
            'truncated pushes); all prefixes and single-byte substitutions of %d peg-out scripts; '
            'sizes around 10000; all combinations of output field values' % (4 if tier == 'quick' else 5, len(TOKENS), len(seeds())))


def seeds():
    spk = b'\x76\xa9\x14' + A[:20] + b'\x88\xac'
    out = [b'\x6a\x20' + A[:32] + bytes([len(spk)]) + spk,
           b'\x6a\x4c\x20' + A[:32] + b'\x4c' + bytes([len(spk)]) + spk + b'\x02\x01\x02\x03abc',
           b'\x6a\x20' + A[:32] + b'\x01\x6a' + b'\x4c']
    return out


def cases(tier):
    yield ('seq', ())
    for t in range(len(TOKENS)):
        yield ('seq', (t,))
        for u in range(len(TOKENS)):
            yield ('seqs', (t, u))
    if tier == 'thorough':
        for u in itertools.product(range(len(TOKENS)), repeat=3):
            yield ('seq2', u)
    for k in range(len(seeds())):
        for p in range(len(seeds()[k])):
            yield ('mut', k, p)
    for a in range(len(txspace.ASSETS)):
        for v in range(len(txspace.VALUES)):
            yield ('output', a, v)
    for n in (9999, 10000, 10001):
        yield ('size', n)
    for i in range(len(vectors.txs())):
        yield ('vector', i)


def check(script, rec):
    s = CElementsScript(script)
    want = ref.pegout(script)
    got = s.get_pegout_data()
    rec.step()
    rec.trace()
    if want is None:
        same(got, None, 'peg-out data of %s' % script.hex())
    else:
        require(got is not None, 'peg-out %s is not recognised', script.hex())
        same((bytes(got[0]), bytes(got[1])), want, 'peg-out data of %s' % script.hex())
        require(type(got[1]) is CElementsScript, 'peg-out script is a %s', type(got[1]).__name__)
        rec.count('peg-outs')
    same(s.is_pegout(), want is not None, 'is_pegout of %s' % script.hex())
    same(s.is_unspendable(), ref.unspendable(script), 'is_unspendable of %s' % script[:80].hex())
    same(bytes(s), script, 'script')
    rec.state(script)


def run(case, rec):
    op = case[0]
    if op == 'seq':
        check(b''.join(TOKENS[t] for t in case[1]), rec)
    elif op == 'seqs':
        pre = b''.join(TOKENS[t] for t in case[1])
        check(pre, rec)
        for t in TOKENS:
            check(pre + t, rec)
            if case[1][0] < 8:
                for u in TOKENS:
                    check(pre + t + u, rec)
    elif op == 'seq2':
        pre = b''.join(TOKENS[t] for t in case[1])
        for t in TOKENS:
            for u in TOKENS:
                check(pre + t + u, rec)
    elif op == 'mut':
        s = seeds()[case[1]]
        p = case[2]
        check(s[:p], rec)
        check(s[:p] + s[p + 1:], rec)
        for v in range(256):
            check(s[:p] + bytes([v]) + s[p + 1:], rec)
        for par in ('elements', 'elements/liquidv1'):
            with ChainParams(par):
                check(s, rec)
        raises('is_pegout as a boolean', bool, CElementsScript(s).is_pegout)
        raises('is_unspendable as a boolean', bool, CElementsScript(s).is_unspendable)
    elif op == 'output':
        a, v = txspace.ASSETS[case[1]], txspace.VALUES[case[2]]
        for n in txspace.NONCES:
            for spk in (b'', b'\x51', b'\x6a', b'\x6a\x20' + A[:32] + b'\x01\x51', b'\0'):
                o = (a, v, n, spk)
                for mut in (False, True):
                    x = bind.txout(o, mut)
                    fee = spk == b'' and a[:1] == b'\1' and v[:1] == b'\1'
                    same(x.is_fee(), fee, 'is_fee of %r' % (o,))
                    same(x.is_null(), o == (b'', b'', b'', b''), 'is_null of %r' % (o,))
                    same(x.scriptPubKey.is_pegout(), ref.pegout(spk) is not None, 'is_pegout')
                    rec.step()
                    rec.trace()
                rec.state(o)
    elif op == 'size':
        n = case[1]
        check(b'\x51' * n, rec)
        check(b'\x6a' * n, rec)
        check(b'\x6a\x20' + A[:32] + b'\x4d\xff\x20' + b'\x51' * 0x20ff, rec)
    elif op == 'vector':
        d = vectors.txs()[case[1]]
        t = bind.CLS[False]['tx'].deserialize(bytes.fromhex(d['hex']))
        for j, o in zip(d['vout'], t.vout):
            spk = j['scriptPubKey']
            want = None
            if 'pegout_chain' in spk:
                rec.count('peg-outs reported by Elements Core')
                want = (bytes.fromhex(spk['pegout_chain'])[::-1],
                        bytes.fromhex(spk['pegout_hex']))
                same(o.scriptPubKey.get_pegout_data(), want, 'peg-out of Core')
            else:
                same(o.scriptPubKey.is_pegout(), False, 'peg-out not reported by Core')
            check(bytes(o.scriptPubKey), rec)
            # the fee output
            fee = spk.get('type') == 'fee'
            same(o.is_fee(), fee, 'is_fee')
            if fee:
                rec.count('fee outputs')
            same(o.is_null(), False, 'is_null')
