"""C15 blech32: conformance of the codec with the specification, error detection"""
import itertools
from elementstx import liquid_addr
from elementstx.blech32 import CBlech32Data, Blech32Error
from .. import ref
from ..engine import same, require, raises

PROPERTY = 'C15'
CHUNK = 2
M = ref.BLECH32
HRPS = ['el', 'lq', 'tex', 'a', 'x1y', '?' * 83, '!~']
BODY = ref.sha256(b'c15') * 4
CH = ref.CHARSET


class Generic(CBlech32Data):
    blech32_hrp = 'lq'


class V0(CBlech32Data):
    blech32_hrp = 'lq'
    blech32_witness_version = 0
    _data_length = 53


class V1(CBlech32Data):
    blech32_hrp = 'lq'
    blech32_witness_version = 1
    _data_length = 65


# strings whose neighbourhoods are explored: (hrp, version, program length)
WORDS = [('el', 16, 2), ('lq', 1, 3), ('lq', 0, 53), ('el', 1, 65), ('lq', 0, 65), ('tex', 5, 73)]


def word(w):
    hrp, v, n = w
    return M.encode(hrp, v, BODY[w[1]:][:n])


def bound(tier):
    return ('%d prefixes x versions 0..32 x program lengths 0..90; both checksum constants x 32 '
            'leading values x all padding values; every single substitution, deletion, insertion, '
            'swap of %d strings; all pairs of substitutions of the 2 shortest ones %s'
            % (len(HRPS), len(WORDS), 'and all position pairs x 3 deltas of the others'
               if tier == 'quick' else ', all pairs of the 4 next ones, all triples of '
               'positions x 3 deltas'))


def cases(tier):
    for h in range(len(HRPS)):
        for v in range(33):
            yield ('enc', h, v)
    for v in range(32):
        for n in range(0, 120):
            yield ('raw', v, n)
    for w in range(len(WORDS)):
        for pos in range(len(word(WORDS[w])) + 1):
            yield ('one', w, pos)
        for pos in range(len(WORDS[w][0]) + 1, len(word(WORDS[w]))):
            full = w < 2 or tier == 'thorough'
            yield ('two', w, pos, full)
        if tier == 'thorough' and w < 2:
            for pos in range(len(WORDS[w][0]) + 1, len(word(WORDS[w]))):
                yield ('three', w, pos)
    for v in range(-2, 20):
        yield ('class', v)
    yield ('strange',)


def check(s, rec, hrps=('lq',)):
    """the library's decoder agrees with the specification on s"""
    want = M.decode(s)
    rec.step()
    rec.trace()
    for h in hrps:
        got = liquid_addr.decode(h, s)
        if want is None or want[0] != h:
            if got != (None, None):
                same(got, (None, None), 'decode(%r, %r)' % (h, s))
        else:
            require(got[0] == want[1] and type(got[0]) is int and bytes(got[1]) == want[2],
                    'decode(%r, %r): got %r, the model says %r', h, s, got, want)
            rec.count('accepted')
    return want


def run(case, rec):
    op = case[0]
    if op == 'enc':
        hrp, v = HRPS[case[1]], case[2]
        for n in range(91):
            prog = BODY[:n]
            s = M.encode(hrp, v, prog) if v < 32 else None
            ok = v < 32 and M.decode(s) == (hrp, v, prog)
            if v < 32:
                rec.state(s)
                check(s, rec, (hrp, 'lq', 'el', hrp + 'x'))
                same(liquid_addr.encode(hrp, v, prog), s if ok else None,
                     'encode(%r, %d, %s)' % (hrp, v, prog.hex()))
                if ok:
                    check(s.upper(), rec, (hrp,))
                    check(hrp.upper() + s[len(hrp):], rec, (hrp, hrp.upper()))
            rec.step()
    elif op == 'raw':
        v, n = case[1:]
        data = [v] + [(i * 7 + n) & 31 for i in range(n)]
        for last in range(32) if n else (0,):
            if n:
                data[-1] = last
            for const in (1, M.consts['m'], 0, 2, 0x2bc830a3, ref.BECH32.consts['m'] ^ 1):
                s = M.encode_raw('lq', data, const)
                rec.state(s)
                check(s, rec, ('lq', 'el'))
    elif op == 'one':
        s = word(WORDS[case[1]])
        pos = case[2]
        hrp = WORDS[case[1]][0]
        out = []
        if pos < len(s):
            for c in range(128):
                out.append(s[:pos] + chr(c) + s[pos + 1:])
            out += [s[:pos] + s[pos + 1:], s[:pos], s[pos:], s[:pos] + 'é' + s[pos + 1:],
                    s[:pos].upper() + s[pos:]]
            if pos + 1 < len(s):
                out.append(s[:pos] + s[pos + 1] + s[pos] + s[pos + 2:])
        for c in CH + '1b':
            out.append(s[:pos] + c + s[pos:])
        for t in out:
            rec.state(t.encode('utf8'))
            w = check(t, rec, (hrp,))
            if t.lower() != s and w is not None:
                rec.count('neighbours that are valid')
    elif op == 'two':
        s = word(WORDS[case[1]])
        hrp = WORDS[case[1]][0]
        p, full = case[2], case[3]
        for q in range(p + 1, len(s)):
            a, b = CH.index(s[p]), CH.index(s[q])
            for x in range(1, 32) if full else (1, 16, 31):
                t = s[:p] + CH[a ^ x] + s[p + 1:]
                for y in range(1, 32) if full else (1, 16, 31):
                    u = t[:q] + CH[b ^ y] + t[q + 1:]
                    # the code detects every error of two characters
                    got = liquid_addr.decode(hrp, u)
                    if got != (None, None):
                        raise AssertionError('two typos accepted: %s -> %r' % (u, got))
                    rec.step()
        rec.trace()
        rec.state(('two', case[1], p))
    elif op == 'three':
        s = word(WORDS[case[1]])
        hrp = WORDS[case[1]][0]
        p = case[2]
        d = (1, 2, 4, 8, 16, 31)
        for q, r in itertools.combinations(range(p + 1, len(s)), 2):
            for x, y, z in itertools.product(d, d, d):
                u = list(s)
                for i, e in ((p, x), (q, y), (r, z)):
                    u[i] = CH[CH.index(u[i]) ^ e]
                got = liquid_addr.decode(hrp, ''.join(u))
                if got != (None, None):
                    raise AssertionError('three typos accepted: %s -> %r' % (''.join(u), got))
                rec.step()
        rec.trace()
        rec.state(('three', case[1], p))
    elif op == 'class':
        classes(case[1], rec)
    else:
        for s in ('', '1', 'lq', 'lq1', '1' + CH, 'lq1' + 'q' * 12, 'lq1' + 'q' * 11,
                  M.encode_raw('lq', [], 1), M.encode_raw('lq', [], M.consts['m']),
                  M.encode_raw('lq', [0] * 984, 1), M.encode_raw('lq', [1] * 1500, M.consts['m']),
                  M.encode_raw('l' * 900, [1, 2, 3, 4, 5] * 5, 1),
                  ref.BECH32.encode('lq', 0, BODY[:20]), ref.BECH32.encode('lq', 1, BODY[:32]),
                  ' ' + word(WORDS[1]), word(WORDS[1]) + ' ', word(WORDS[1]) + '\n'):
            check(s, rec, ('lq', 'LQ', '', 'l' * 900))


def classes(v, rec):
    for n in (0, 1, 2, 20, 32, 40, 52, 53, 54, 64, 65, 66, 72, 73, 74):
        prog = BODY[:n]
        valid = 0 <= v <= 16 and M.decode(M.encode('lq', v, prog)) is not None
        rec.state((v, n))
        for cls in (Generic, V0, V1):
            fixed = cls.blech32_witness_version
            # from a string
            if 0 <= v <= 16:
                s = M.encode('lq', v, prog)
                rec.step()
                rec.trace()
                if valid and (fixed < 0 or (fixed == v and n == cls._data_length)):
                    x = cls(s)
                    same(type(x), cls, 'class')
                    same(bytes(x), prog, 'program of %s' % s)
                    same(x.to_bytes(), prog, 'to_bytes of %s' % s)
                    same(x.blech32_witness_version, v, 'version of %s' % s)
                    same(str(x), s, 'str')
                    same(str(cls(s.upper())), s, 'upper case')
                    require(s in repr(x), 'repr')
                    t = s[:-1] + CH[CH.index(s[-1]) ^ 1]
                    raises('bad checksum', cls, t, exc=(Blech32Error,))
                else:
                    raises('%s(%s)' % (cls.__name__, s), cls, s, exc=(Blech32Error,))
                raises('other prefix', cls, M.encode('el', v, prog), exc=(Blech32Error,))
            # from bytes
            if 0 <= v <= 16 and (fixed < 0 or fixed == v):
                x = cls.from_bytes(prog, witver=v)
                same((bytes(x), x.blech32_witness_version, type(x)), (prog, v, cls), 'from_bytes')
                if valid:
                    same(str(x), M.encode('lq', v, prog), 'str of from_bytes')
            else:
                raises('%s.from_bytes with version %d' % (cls.__name__, v), cls.from_bytes, prog,
                       witver=v, exc=(ValueError,))
            if fixed < 0:
                raises('no version', cls.from_bytes, prog, exc=(ValueError,))
            else:
                same(cls.from_bytes(prog).blech32_witness_version, fixed, 'default version')
            rec.step(2)
            # instances do not change the class
            same(cls.blech32_witness_version, fixed, 'version of the class')
