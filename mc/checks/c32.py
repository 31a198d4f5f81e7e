"""C32 blinding hides: every secret is a random draw of its own, nothing visible depends on what is hidden"""
import contextlib
from bitcointx import ChainParams
from bitcointx.core import Uint256
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import CAsset, generate_output_rangeproof_nonce, generate_surjectionproof, blinded_asset
from .. import ref, shim
from .. import blindspace as bs
from ..engine import require, same
from . import c10

PROPERTY = 'C32'
CHUNK = 8
ASSUMPTIONS = c10.ASSUMPTIONS
VARIANTS = ('factors', 'amounts', 'asset0', 'asset1')


def bound(tier):
    return ('the scenarios of C10 (%s); of each every secret against every draw of the random source, and a '
            'twin for each way to change only what is hidden (blinding factors of the inputs, amounts, assets)' % tier)


prepare = c10.prepare


def cases(tier):
    for s in bs.space(tier):
        yield ('scn', s)
    for s in c10.tally_space(tier):
        yield ('scn', s)
    for ins, outs in bs.OPT_BASES:
        yield ('default', bs.mk(ins, outs))
    yield ('parts',)


# ------------------------------------------------------------------ secrets

def secrets(p, r):
    """(label, value) of every secret that blinding has to choose; the value factor of one thing is
    determined by the others"""
    isss, outs, _ = bs.check_committed(p, r)
    free = []
    for key, (vbf, abf) in r.factors.items():
        if key[0] == 'o':
            yield ('asset factor', key), abf
        free.append((('value factor', key), vbf))
    for k, o in enumerate(r.after[2]):
        if ('o', k) in r.factors:
            yield ('nonce', k), o[2]
    for n, s in enumerate(r.seeds):
        yield ('seed', n), s
    yield from free


def execute(p, **over):
    shim.seeds()
    r = bs.execute(p, **over)
    r.seeds = shim.seeds()
    return r


def pub(secret):
    try:
        return bytes(CKey.from_secret_bytes(secret).pub)
    except ValueError:
        return None


def draws(p, r):
    """every secret is a draw, and none is used for two things"""
    if r.exc is not None or r.res is None or r.res.error:
        return
    used = {}
    given = {bytes(d): n for n, d in enumerate(r.rand.given)}
    pubs = {pub(d): d for d in given}
    balancing = None            # one value factor is determined by all the others
    for label, v in secrets(p, r):
        d = pubs.get(v) if label[0] == 'nonce' else v
        if label[0] == 'value factor' and balancing is None and (d not in given or d in used):
            balancing = label
            continue
        require(d in given, '%s %s is not a draw of the random source', *label)
        require(d not in used, '%s %s is the same random draw as %s %s', *label, *used.get(d, ()))
        used[d] = label


# ------------------------------------------------------------------ twins

@contextlib.contextmanager
def changed(p, what):
    """scenario that differs from that of p only in what is hidden"""
    ins, outs, opts = p.scn
    save_iss, save_asset = dict(bs.ISS), list(bs.ASSET)
    try:
        if what == 'factors':
            ins = tuple((alter(p, k, kind, what), i) for k, (kind, i) in enumerate(ins))
        elif what == 'amounts':
            ins = tuple((alter(p, k, kind, what), i) for k, (kind, i) in enumerate(ins))
            outs = tuple((a, conf, spk, other_amount(p, n, spk)) if conf else (a, conf, spk, n)
                         for a, conf, spk, n in outs)
            for k, v in save_iss.items():
                if v and '*' in k:
                    re, na, nt = v
                    bs.ISS[k] = (re, other_amount(p, na, 'f') if k[1:2] == '*' and na else na,
                                 other_amount(p, nt, 'f') if 't*' in k else nt)
        else:
            n = int(what[5:])
            visible = {0: 'UV', 1: 'Y'}[n]
            if any(kind in visible for kind, _ in ins if isinstance(kind, str)) \
                    or any(isinstance(kind, tuple) and (kind[4] == bs.Z and kind[1] == save_asset[n])
                           for kind, _ in ins) \
                    or any(a == str(n) and not conf for a, conf, _, _ in outs):
                yield None
                return
            bs.ASSET[n] = bs.h('another asset', n)
            ins = tuple(((k[0], bs.ASSET[n]) + k[2:] if isinstance(k, tuple) and k[1] == save_asset[n] else k, i)
                        for k, i in ins)
        yield bs.Plain((ins, outs, opts))
    finally:
        bs.ISS.update(save_iss)
        bs.ASSET[:] = save_asset


def alter(p, k, kind, what):
    a, n, vbf, abf = p.desc[k]
    if kind == 'N' or (vbf == bs.Z and abf == bs.Z):
        return kind
    if what == 'amounts':
        return 'coin', a, n + 1 if vbf != bs.Z else n, vbf, abf
    return ('coin', a, n, bs.h('other vbf', vbf) if vbf != bs.Z else vbf,
            bs.h('other abf', abf) if abf != bs.Z else abf)


def other_amount(p, n, spk):
    """another amount for which the same range proof parameters are right"""
    if n == 0:
        return 0
    for m in (n + 1, n - 1, n + 10**18):
        if 0 < m <= 21 * 10**14 and p.proof_params(m, spk) == p.proof_params(n, spk) is not None:
            return m
    return n


def view(p, r):
    """what anyone can see"""
    a = r.after

    def c(x):
        return 'commitment' if len(x) == 33 and x[0] in (8, 9, 10, 11) else x

    def rp(x):
        return (shim.rangeproof_info(x), len(x)) if x else None

    def sp(x):
        return (x[:2], sum(bin(b).count('1') for b in x[2:2 + (x[0] + 7) // 8]), len(x)) if x else None
    vin = tuple(i[:4] + (tuple(map(c, i[4])), i[5]) for i in a[1])
    vout = tuple((c(o[0]), c(o[1]), o[2], o[3]) for o in a[2])
    wit = (tuple((w[0], rp(w[1]), rp(w[2]), w[3]) for w in (ref.inwit(a, k) for k in range(len(vin)))),
           tuple((sp(w[0]), rp(w[1])) for w in (ref.outwit(a, k) for k in range(len(vout)))))
    return a[0], vin, vout, a[3], wit


def hidden(p, r):
    """choices that must not depend on hidden things: all factors but the one that balances"""
    if r.res is None:
        return type(r.exc)
    return ([x.data for x in r.res.asset_blinding_factors], [len(d) for d in r.rand.given],
            r.res.num_successfully_blinded, len(r.seeds), r.seeds)


def twins(p, r, rec):
    if p.predict() != 'complete' or r.exc is not None or r.res.error:
        return
    for what in VARIANTS:
        with changed(p, what) as q:
            if q is None or q.predict() != 'complete':
                continue
            s = execute(q)
            require(s.exc is None and s.res.error == '', 'blinding depends on the hidden %s: %s', what, s.exc or s.res)
            same(view(q, s), view(p, r), 'what is visible when only the hidden %s differ' % what)
            same(hidden(q, s), hidden(p, r), 'random choices when only the hidden %s differ' % what)
            rec.count(what)
            rec.step()
            rec.trace()


# ------------------------------------------------------------------ default source

def default(p, rec):
    """without a random source: two runs have no secret in common"""
    def once():
        tx, kw = p.realise()
        shim.seeds()
        r = bs.Result()
        r.before = bs.bind.un_tx(tx)
        with ChainParams(p.o['net']):
            r.res, r.exc = tx.blind(**kw), None
        r.tx, r.after, r.rand, r.seeds = tx, bs.bind.un_tx(tx), None, shim.seeds()
        require(r.res.error == '', 'blinding fails: %s', r.res)
        return [(l, v) for l, v in secrets(p, r)]
    one, two = once(), once()
    same([l for l, _ in one], [l for l, _ in two], 'secrets of the two runs')
    seen = {}
    last = [l for l, _ in one][-1]
    for l, v in one + two:
        if l == last:           # determined by the others
            continue
        require(v not in seen, 'with the default random source %s %s is chosen twice', *l)
        seen[v] = l
        rec.step()
    rec.trace()


def parts(rec):
    """generate_output_rangeproof_nonce and generate_surjectionproof on their own"""
    key = CKey.from_secret_bytes(bs.h('part')).pub
    for seed in range(8):
        rand = bs.Rand(seed)
        (n1, p1), (n2, p2) = (generate_output_rangeproof_nonce(key, _rand_func=rand) for _ in range(2))
        same([bytes(p1), bytes(p2)], [pub(d) for d in rand.given], 'ephemeral keys')
        for p, n, d in ((p1, n1, rand.given[0]), (p2, n2, rand.given[1])):
            same(n.data, ref.blinding_nonce(d, bytes(key)), 'nonce')
    got = [generate_output_rangeproof_nonce(key) for _ in range(4)]
    same(len({bytes(p) for _, p in got} | {n.data for n, _ in got}), 8, 'different nonces and keys')
    with ChainParams('elements'):
        a = CAsset(bs.ASSET[0])
        abf = Uint256(bs.h('abf'))
        gen = blinded_asset(a, abf)[1]
        ins = [blinded_asset(a, Uint256(bs.h('in', k)))[1] for k in range(4)]
        shim.seeds()
        rand = bs.Rand(0)
        for k in range(6):
            kw = dict(_rand_func=rand) if k < 3 else {}
            require(generate_surjectionproof([Uint256(a.data)] * 4, ins, [Uint256(bs.h('in', j)) for j in range(4)],
                                             [abf], gen, a, **kw), 'no surjection proof')
        seeds = shim.seeds()
        same(seeds[:3], [bytes(d) for d in rand.given], 'seeds')
        same(len(set(seeds)), 6, 'different seeds')
    rec.step(8)
    rec.trace()


def run(case, rec):
    if case[0] == 'parts':
        parts(rec)
        rec.state(case)
        return
    p = bs.Plain(case[1])
    rec.state(case)
    if case[0] == 'default':
        if p.predict() == 'complete':
            default(p, rec)
        return
    r = execute(p)
    draws(p, r)
    rec.step()
    rec.trace()
    twins(p, r, rec)
