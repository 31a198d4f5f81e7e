"""C29 the swap examples: an honest participant never loses its funds"""
import json
import os
import struct
from .. import ref, shim, addrspace, world
from ..world import World, Wallet, BitcoinWallet, Elements, Bitcoin, lx, rx, COIN
from . import c10
from ..engine import require, Violation

PROPERTY = 'C29'
CHUNK = 1
REPO = os.environ.get('VERIF_REPO', '/repo')
FEE_ASSET = ref.sha256(b'policy asset')


def execute_asset(cfg, plan):
    kind, fee_blinded = cfg
    chain = Elements('elements')
    ws = {n: Wallet(n, chain, kind, FEE_ASSET) for n in ('alice', 'bob')}
    for n, amount in (('alice', 3 * COIN), ('alice', 19999), ('bob', 4 * COIN)):
        ws[n].fund(FEE_ASSET, amount, fee_blinded)
    chain.mine()
    w = World({('d-' + n, n): ws[n] for n in ws}, plan, mutate)
    hung = w.run(REPO + '/examples/asset-atomic-swap.py', [('d-alice', 'elements.conf'), ('d-bob', 'elements.conf')],
                 [rx(FEE_ASSET)], ('alice', 'bob'))
    for _ in range(3):
        chain.mine()
    return dict(hung=hung, trace=compress(w.trace), messages=w.messages, delivered=w.delivered, end=w.now,
                own={n: ws[n].holdings() for n in ws}, issued={n: ws[n].issued for n in ws})


def compress(trace):
    """numbers of the requests of each participant: the first and the last one
    of a run of equal requests, and no sleeps"""
    out = {}
    for name, k, req in trace:
        if req[0] != 'sleep':
            out.setdefault(name, []).append((k, req if req[0] == 'rpc' else req[:2]))
    res = {'pays': [(name, k) for name, rs in out.items() for k, r in rs if r[0] == 'rpc' and r[2] == 'sendtoaddress']}
    for name, rs in out.items():
        res[name] = [k for i, (k, r) in enumerate(rs)
                     if i == 0 or i == len(rs) - 1 or rs[i - 1][1] != r or rs[i + 1][1] != r]
    return res


def execute_cross(cfg, plan):
    kind, first = cfg
    elt, btc = Elements('elements'), Bitcoin('bitcoin/regtest')
    ws = {}
    for n in ('alice', 'bob', 'miner'):
        ws['d-btc', n] = BitcoinWallet(n, btc, kind, FEE_ASSET)
        ws['d-elt', n] = Wallet(n, elt, kind, FEE_ASSET)
        ws['d-btc', n].change_first = ws['d-elt', n].change_first = first
    w = World(ws, plan, mutate)
    hung = w.run(REPO + '/examples/confidential-cross-chain-atomic-swap.py',
                 [('d-btc', 'bitcoin.conf'), ('d-elt', 'elements.conf')], [rx(FEE_ASSET)], ('alice', 'bob'))
    for _ in range(3):
        elt.mine()
        btc.mine()
    own = {}
    for n in ('alice', 'bob'):
        own[n] = {d: sum(s[1] for op, s, o in ws[d, n].owned() if s is not None and op[0] not in
                         [t for t, _ in ws[d, n].paid]) for d in ('d-btc', 'd-elt')}
        own[n]['paid'] = [len(ws[d, n].paid) for d in ('d-btc', 'd-elt')]
    return dict(hung=hung, trace=compress(w.trace), messages=w.messages, delivered=w.delivered, end=w.now,
                own=own, exits=w.exits)


# ------------------------------------------------ what an adversary may send

ATT_KEY = ref.sha256(b'adversary')
ATT_PUB = ref.pub_ser(ref.ec_mul(int.from_bytes(ATT_KEY, 'big'), ref.G))
ATT_HASH = ref.ripemd160(ref.sha256(ATT_PUB))
ATT_SPK = b'\0\x14' + ATT_HASH
OTHER = ref.sha256(b'an asset that the liar does not have')
KEYS = {}           # script -> blinding key, of all the wallets


def tx_variants(t):
    v, vin, vout, lock, wit = t

    def outs(o, w=None):
        w = wit if w is None else w
        return ref.enc_tx((v, vin, tuple(o), lock, w))

    def at(seq, k, x):
        return tuple(seq[:k]) + tuple(x) + tuple(seq[k + 1:])
    ow = tuple(ref.outwit(t, k) for k in range(len(vout)))
    iw = tuple(ref.inwit(t, k) for k in range(len(vin)))
    for k, o in enumerate(vout):
        yield 'out%d script' % k, outs(at(vout, k, [(o[0], o[1], o[2], ATT_SPK)]))
        yield 'out%d drop' % k, outs(at(vout, k, []), (iw, at(ow, k, [])))
        yield 'out%d twice' % k, outs(at(vout, k, [o, o]), (iw, at(ow, k, [ow[k]] * 2)))
        if o[1][:1] == b'\1':
            n = struct.unpack('>q', o[1][1:])[0]
            for d in (-1, 1):
                yield 'out%d amount %+d' % (k, d), outs(at(vout, k, [
                    (o[0], b'\1' + struct.pack('>q', n + d), o[2], o[3])]))
        yield 'out%d nonce' % k, outs(at(vout, k, [(o[0], o[1], ATT_PUB, o[3])]))
        yield 'out%d explicit' % k, outs(at(vout, k, [(b'\1' + FEE_ASSET, b'\1' + struct.pack('>q', COIN), b'', o[3])]),
                                         (iw, at(ow, k, [ref.NULL_OUTWIT])))
        yield 'out%d proofs' % k, outs(vout, (iw, at(ow, k, [ref.NULL_OUTWIT])))
        if k:
            yield 'out%d swap' % k, outs(vout[:k - 1] + (o, vout[k - 1]) + vout[k + 1:],
                                         (iw, ow[:k - 1] + (ow[k], ow[k - 1]) + ow[k + 1:]))
    yield 'out more', outs(vout + ((b'\1' + FEE_ASSET, b'\1' + b'\0' * 8, b'', b'\x6a'),),
                           (iw, ow + (ref.NULL_OUTWIT,)))
    yield 'out none', outs((), (iw, ()))
    for k, i in enumerate(vin):
        for what, x in (('drop', []), ('twice', [i, i]), ('index', [i[:1] + (i[1] + 1,) + i[2:]]),
                        ('hash', [(ATT_KEY,) + i[1:]]), ('sequence', [i[:3] + (5,) + i[4:]]),
                        ('unsigned', [i[:2] + (b'',) + i[3:]])):
            nvin = at(vin, k, x)
            yield 'in%d %s' % (k, what), ref.enc_tx((v, nvin, vout, lock, (
                at(iw, k, [iw[k]] * len(x)), ow)))
        yield 'in%d witness' % k, ref.enc_tx((v, vin, vout, lock, (at(iw, k, [ref.NULL_INWIT]), ow)))
        if k:
            yield 'in%d swap' % k, ref.enc_tx((v, vin[:k - 1] + (i, vin[k - 1]) + vin[k + 1:], vout, lock, wit))
    yield 'locktime', ref.enc_tx((v, vin, vout, 7, wit))
    yield 'version', ref.enc_tx((v + 1, vin, vout, lock, wit))
    yield 'no witness', ref.enc_tx((v, vin, vout, lock, ref.NO_WIT))


def bytes_variants(b):
    try:
        t = ref.dec_tx(b)
    except ref.Reject:
        t = None
    if t is not None and t[1]:
        yield from tx_variants(t)
    elif len(b) == 33:
        yield 'attacker', ATT_PUB
        yield 'negated', bytes([b[0] ^ 1]) + b[1:]
    elif len(b) == 32:
        yield 'attacker', ATT_KEY
        yield 'zero', b'\0' * 32
    yield 'empty', b''
    yield 'short', b[:-1]
    yield 'long', b + b'\0'
    for p in (0, len(b) // 2, len(b) - 1):
        yield 'flip %d' % p, b[:p] + bytes([b[p] ^ 1]) + b[p + 1:]


def str_variants(s):
    d = addrspace.decode(s)
    if d is not None:
        net, kind, pub, h = d
        yield 'other script', addrspace.encode(net, 'P2WPKH', pub, ATT_HASH)
        yield 'other blinding key', addrspace.encode(net, kind, ATT_PUB, h)
        yield 'unconfidential', addrspace.encode(net, kind, None, h)
        yield 'other network', addrspace.encode('elements/liquidv1', kind, pub, h)
        yield 'typo', s[:-1] + ('q' if s[-1] != 'q' else 'p')
        yield 'attacker', addrspace.encode(net, 'P2WPKH', ATT_PUB, ATT_HASH)
    else:
        try:
            b = bytes.fromhex(s)
        except ValueError:
            b = b''
        if b:
            for label, x in bytes_variants(b):
                yield 'hex ' + label, x.hex()
    yield 'empty', ''
    yield 'junk', 'zz'


def variants(v):
    """(label, value) of everything that may stand in the place of a value"""
    yield 'none', None
    yield 'number', 5
    if isinstance(v, dict) or hasattr(v, '_fields'):
        for f in (v if isinstance(v, dict) else v._fields):
            x = v[f] if isinstance(v, dict) else getattr(v, f)
            for label, y in variants(x):
                yield f + ' ' + label, dict(v, **{f: y}) if isinstance(v, dict) else v._replace(**{f: y})
    elif isinstance(v, (list, tuple)):
        yield 'empty', type(v)()
        for k, x in enumerate(v):
            yield '%d drop' % k, v[:k] + v[k + 1:]
            yield '%d twice' % k, v[:k + 1] + v[k:]
            if k:
                yield '%d swap' % k, v[:k - 1] + type(v)([x, v[k - 1]]) + v[k + 1:]
            for label, y in variants(x):
                yield '%d %s' % (k, label), v[:k] + type(v)([y]) + v[k + 1:]
    elif isinstance(v, bytes):
        yield from bytes_variants(bytes(v))
    elif isinstance(v, str):
        yield from str_variants(v)
    elif isinstance(v, int):
        for x in (v - 1, v + 1, 0, -v, 2 * v):
            yield 'int %d' % (x - v), x
        yield 'text', str(v)


LIES = ('asset', 'asset and no factor', 'only the asset')


def lies(b):
    """range proofs that claim the blinded output to be of the asset OTHER"""
    t = ref.dec_tx(bytes(b))
    for k, o in enumerate(t[2]):
        key = KEYS.get(o[3])
        rp = ref.outwit(t, k)[1]
        if not rp or key is None:
            continue
        nonce = ref.blinding_nonce(key, o[2])
        raw = shim.parse_gen(o[0])
        r = shim.rewind(rp, o[1], nonce, o[3], raw)
        if r is None:
            continue
        for what in LIES:
            m = {'asset': OTHER + r[2][32:64], 'asset and no factor': OTHER + b'\0' * 32, 'only the asset': OTHER}[what]
            proof = shim.sign(1, o[1], r[1], nonce, 0, 36, r[0], m, o[3], raw)
            wits = tuple((ref.outwit(t, j)[0], proof) if j == k else ref.outwit(t, j) for j in range(len(t[2])))
            yield 'lie %d %s' % (k, what), ref.enc_tx(
                t[:4] + ((tuple(ref.inwit(t, j) for j in range(len(t[1]))), wits),))


def pretend(v, which):
    """an offer of OTHER instead of the asset that is held"""
    if isinstance(v, list):
        return [pretend(x, 0) if k == which else x for k, x in enumerate(v)]
    return dict(v, asset=rx(OTHER)) if isinstance(v, dict) else v._replace(asset=rx(OTHER))


def message_variants(msg):
    yield 'drop', None
    yield 'bye', ['bye!', None]
    yield 'tag', ['junk', msg[1]]
    for label, v in variants(msg[1]):
        yield label, [msg[0], v]


def mutate(w, name, n, msg, mut):
    for (_, who), wallet in w.wallets.items():
        KEYS.update({spk: k[1] for spk, k in wallet.keys.items()})
    if mut.startswith('lie'):
        for label, b in lies(msg[1]):
            if label == mut:
                return [msg[0], b]
    elif mut.startswith('pretend'):
        return [msg[0], pretend(msg[1], int(mut[8:]))]
    for label, m in message_variants(list(msg)):
        if label == mut:
            return m
    return list(msg)


# ------------------------------------------------------------------ judgement

def judge_asset(plan, r, rec):
    corrupt = {f[0] for f in plan if f[1] != 'msg' and f[2] == 'fork'}
    for n in ('alice', 'bob'):
        if n in corrupt:
            continue
        own = r['own'][n]
        start = {FEE_ASSET: (3 * COIN + 19999) if n == 'alice' else 4 * COIN}
        mine = {a: v for a, v in r['issued'][n]}
        kept = all(own.get(a, 0) == v for a, v in mine.items())
        fee = start[FEE_ASSET] - own.get(FEE_ASSET, 0)
        require(0 <= fee <= (10000 if n == 'alice' else 0), '%s loses %d of the fee asset', n, fee)
        offers = [m[1] for who, m in r['delivered'] if who == n and (m[0] == 'offer' or is_offer(m[1]))]
        got = False
        if offers:
            want = offers[0] if isinstance(offers[0], list) else [offers[0]]
            try:
                got = len(want) > 0 and all(
                    own.get(lx(o['asset']), 0) >= o['amount']
                    and lx(o['asset']) not in mine for o in want)
            except (TypeError, KeyError, ValueError):
                got = False
        rec.count('%s %s' % (n, 'swapped' if got and not kept else 'kept'))
        require(kept or got, '%s ends with neither its own assets nor those that it was offered: it owns %s',
                n, {rx(a)[:8]: v for a, v in own.items()})
        if not plan:
            require(got and not kept, 'nothing went wrong, and yet %s did not get what it was offered', n)


def judge_cross(plan, r, rec):
    corrupt = {f[0] for f in plan if f[1] != 'msg'}
    for n, mine, other in (('alice', 'd-elt', 'd-btc'), ('bob', 'd-btc', 'd-elt')):
        if n in corrupt:
            continue
        own = r['own'][n]
        if not sum(own['paid']):
            rec.count(n + ' did not pay')
            continue
        got, back = own[other] >= COIN, own[mine] >= COIN
        rec.count('%s %s' % (n, 'swapped' if got else 'took back'))
        require(got or back, '%s has paid and neither got the coins of the other nor its own back: %s', n, own)
        if not plan:
            require(got, 'nothing went wrong, and yet %s did not get the coins of the other', n)


EXEC = {'asset': (execute_asset, judge_asset), 'cross': (execute_cross, judge_cross)}
CFGS = {'asset': tuple((k, b) for k in ('P2SH', 'P2WPKH', 'P2PKH') for b in (True, False)),
        'cross': tuple((k, f) for k in ('P2SH', 'P2WPKH', 'P2PKH') for f in (False, True))}
_base = {}


def execute(which, cfg, plan):
    return world.isolated(lambda: EXEC[which][0](cfg, plan))


def base(which, cfg):
    if (which, cfg) not in _base:
        try:
            _base[which, cfg] = execute(which, cfg, ())
        except RuntimeError:
            _base[which, cfg] = None
    return _base[which, cfg]


def prepare(tier):
    shim.install()
    world.install_ecdsa()
    for which in EXEC:
        for cfg in CFGS[which]:
            base(which, cfg)


def single(which, cfg, tier):
    b = base(which, cfg)
    if b is None:
        return
    for n in ('alice', 'bob'):
        for k in b['trace'][n]:
            yield (n, k, 'stop')
            yield (n, k, 'bye')
            yield (n, k, 'fail')
            for d in DELAYS[which, tier]:
                yield (n, k, 'delay', d)
                yield (n, k, 'fork', d)
    for name, k in b['trace']['pays']:
        for t in world.TWISTS:
            yield (name, k, 'pay', t)
    for name, k, msg in b['messages']:
        for label, _ in message_variants(msg):
            yield (name, 'msg', k, label)


def history(case):
    return ' '.join([case[0], case[1][0], str(int(case[1][1]))] + [','.join(map(str, f)) for f in case[2]])


def load_known():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../../known_histories.json')) as f:
        return {(h, loser): key for key, hs in json.load(f).items() for h, loser in hs.items()}


KNOWN = load_known()


def is_offer(v):
    if isinstance(v, list):
        return len(v) > 0 and all(is_offer(x) for x in v)
    return isinstance(v, dict) and {'asset', 'amount'} <= set(v)


def is_tx(v):
    try:
        return isinstance(v, bytes) and bool(ref.dec_tx(v)[1])
    except ref.Reject:
        return False


def liars(which, cfg):
    b = base(which, cfg)
    if b is None or which != 'asset':
        return
    for n in ('bob', 'alice'):
        offer = [k for name, k, m in b['messages'] if name == n and is_offer(m[1])]
        proof = [k for name, k, m in b['messages'] if name == n and is_tx(m[1])]
        if not offer or not proof:
            continue
        offer, proof = offer[0], proof[0]
        for k in (0,) if n == 'bob' else (1, 2):
            for what in LIES:
                yield ((n, 'msg', offer, 'pretend %d' % max(0, k - 1)), (n, 'msg', proof, 'lie %d %s' % (k, what)))


DELAYS = {('asset', 'quick'): (3, 9, 70), ('asset', 'thorough'): (1, 3, 5, 9, 61, 70),
          ('cross', 'quick'): (6, 12, 18, 24, 32, 44, 70), ('cross', 'thorough'): tuple(sorted({*range(2, 100, 4), 12, 24, 32, 44}))}
PAIR = (('stop',), ('fork', 24), ('delay', 18), ('delay', 40))


def pairs(which, cfg):
    """two faults of one participant; the second one comes after the first"""
    b = base(which, cfg)
    if b is None:
        return
    for n in ('alice', 'bob'):
        ks = b['trace'][n]
        for i, k in enumerate(ks):
            for m in ks[i + 1:]:
                for f in PAIR[1:]:
                    for g in PAIR:
                        yield ((n, k) + f, (n, m) + g)


def cases(tier):
    for which in EXEC:
        for c, cfg in enumerate(CFGS[which]):
            yield (which, cfg, ())
            if tier == 'thorough' or c == 0:
                for f in single(which, cfg, tier if c == 0 else 'quick'):
                    yield (which, cfg, (f,))
            for p in liars(which, cfg):
                yield (which, cfg, p)
    if tier == 'thorough':
        for p in pairs('cross', CFGS['cross'][0]):
            yield ('cross', CFGS['cross'][0], p)


def bound(tier):
    return ('both swap examples with 6 kinds of wallets; every single fault of one participant: stopping, '
            'failing, breaking the connection off, pausing or acting twice (a failed and a paused copy) at '
            'every call, %d kinds of wrong payments, every variant of every field of every message%s' % (
                len(world.TWISTS), ' (one kind of wallet)' if tier == 'quick' else
                '; every two faults of one participant of the cross-chain swap, of %d kinds' % len(PAIR)))


ASSUMPTIONS = ['the block chains and daemons are the model of mc/world.py: transactions are seen by everybody at '
               'once, blocks of both chains come at equal intervals and there are no reorganisations',
               'the participant that is judged is not itself delayed and its daemon does not fail',
               'the ecdsa package is replaced by a stand-in if it is not installed'] + c10.ASSUMPTIONS


def run(case, rec):
    which, cfg, plan = case
    shim.install()
    world.install_ecdsa()
    r = execute(which, cfg, plan)
    rec.step(len(r['trace'].get('alice', ())) + len(r['trace'].get('bob', ())))
    rec.trace()
    rec.state((which, cfg, plan))
    hung = [n for n in r['hung'] if not any(f[0] == n and f[1] != 'msg' for f in plan)]
    require(not hung, '%s do not end', hung)
    try:
        EXEC[which][1](plan, r, rec)
    except Violation as e:
        # histories of which the loss is recorded in known_findings.txt
        key = KNOWN.get((history(case), str(e).split()[0]))
        if key is None:
            raise
        rec.finding(key, str(e))
