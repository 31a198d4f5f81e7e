"""C17 the active network is the one that the nesting of contexts says, and the
generic classes follow it"""
import contextvars
import itertools
import sys
import threading
import bitcointx
from bitcointx import ChainParams, select_chain_params, get_current_chain_params
import bitcointx.core as bc
import bitcointx.core.script as bscript
import bitcointx.wallet as bw
import elementstx
import elementstx.core as ec
import elementstx.core.script as es
import elementstx.wallet as ew
from .. import shim, ops
from ..engine import same, require, raises, Violation

PROPERTY = 'C17'
CHUNK = 4
ASSUMPTIONS = ['a thread selects its network before it uses the library (bitcointx cannot work in a '
               'thread where nothing was selected)']

B, BR, E, L = 'bitcoin', 'bitcoin/regtest', 'elements', 'elements/liquidv1'
SPEC = {        # how the caller names the network -> network
    'bitcoin': (lambda: 'bitcoin', B), 'elements': (lambda: 'elements', E),
    'liquid': (lambda: 'elements/liquidv1', L),
    'alias': (lambda: 'elements/elementsregtest', E),
    'cls-e': (lambda: elementstx.ElementsParams, E),
    'cls-l': (lambda: elementstx.ElementsLiquidV1Params, L),
    'inst-l': (lambda: elementstx.ElementsLiquidV1Params(), L),
    'inst-e': (lambda: elementstx.ElementsParams(), E),
    'regtest': (lambda: 'bitcoin/regtest', BR),
}
NAMES = {
    B: (bc.CBitcoinTransaction, bc.CBitcoinMutableTransaction, bc.CBitcoinTxOut, bc.CBitcoinTxIn,
        bc.CBitcoinMutableTxIn, bscript.CBitcoinScript, bw.CBitcoinKey, bw.CBitcoinExtKey,
        bw.P2WPKHBitcoinAddress, bc.CBitcoinOutPoint),
    BR: (bc.CBitcoinTransaction, bc.CBitcoinMutableTransaction, bc.CBitcoinTxOut, bc.CBitcoinTxIn,
         bc.CBitcoinMutableTxIn, bscript.CBitcoinScript, bw.CBitcoinRegtestKey, bw.CBitcoinRegtestExtKey,
         bw.P2WPKHBitcoinRegtestAddress, bc.CBitcoinOutPoint),
    E: (ec.CElementsTransaction, ec.CElementsMutableTransaction, ec.CElementsTxOut, ec.CElementsTxIn,
        ec.CElementsMutableTxIn, es.CElementsScript, ew.CElementsKey, ew.CElementsExtKey,
        ew.P2WPKHElementsAddress, ec.CElementsOutPoint),
    L: (ec.CElementsTransaction, ec.CElementsMutableTransaction, ec.CElementsTxOut, ec.CElementsTxIn,
        ec.CElementsMutableTxIn, es.CElementsScript, ew.CElementsLiquidV1Key, ew.CElementsLiquidV1ExtKey,
        ew.P2WPKHElementsLiquidV1Address, ec.CElementsOutPoint),
}
WALLET = {B: bw.CBitcoinAddress, BR: bw.CBitcoinRegtestAddress, E: ew.CElementsAddress,
          L: ew.CElementsLiquidV1Address}
ACCEPT = {B: (ops.B_PKH,), BR: (), E: (ops.E_PKH, ops.E_CONF), L: (ops.L_PKH, ops.L_CONF)}
ALL_ADDR = (ops.B_PKH, ops.E_PKH, ops.E_CONF, ops.L_PKH, ops.L_CONF)
MAXMONEY = 21000000 * 10**8
KEY = b'\x01' * 32
CONTROL = [('enter', 'bitcoin'), ('enter', 'elements'), ('enter', 'liquid'), ('enter', 'alias'),
           ('exit',), ('exitx',), ('select', 'elements'), ('select', 'liquid'), ('select', 'bitcoin'),
           ('select', 'inst-l'), ('enterbad',), ('selectbad',), ('call', '!truncated'), ('call', '!sighash_v0'),
           ('call', 'sighash_legacy')]
TH = [('enter', 'elements'), ('enter', 'liquid'), ('exit',), ('call', '!truncated_mut')]
TH2 = TH + [('select', 'bitcoin'), ('exitx',), ('call', 'sighash_legacy'), ('call', '?keys')]

TH3 = TH2[:6]


def bound(tier):
    n = len(ops.OPS)
    return ('all histories of up to %d operations over an alphabet of %d (enter, leave, leave by exception, '
            'select, failing and succeeding calls), all ordered pairs of %d library operations in '
            '%s of the control states of depth up to 2; two threads with 2%s operations each in every interleaving, '
            'two contexts in one thread with 3 of %s' % (
                4 if tier == 'quick' else 5, len(CONTROL), n, 'a third' if tier == 'quick' else 'all', *(('', len(TH)) if tier == 'quick' else
                                                                (' and 3', len(TH3)))))


def valid(hist):
    d = 0
    for o in hist:
        if o[0] == 'enter':
            d += 1
        elif o[0] in ('exit', 'exitx'):
            d -= 1
        if d < 0:
            return False
    return True


def histories(alpha, n):
    for h in itertools.product(alpha, repeat=n):
        if valid(h):
            yield h


def controls():
    yield ()
    for s in ('bitcoin', 'elements', 'liquid'):
        yield (('select', s),)
        yield (('enter', s),)
        for t in ('bitcoin', 'elements', 'liquid'):
            yield (('enter', s), ('enter', t))
    for s, t in (('elements', 'liquid'), ('bitcoin', 'elements')):
        yield (('enter', s), ('enter', t), ('exit',))
        yield (('enter', s), ('enter', t), ('exitx',))
        yield (('enter', s), ('select', t))
        yield (('select', s), ('enter', t), ('exit',))


def cases(tier):
    for spec in SPEC:
        for how in ('enter', 'select'):
            yield ('hist', ((how, spec),))
    depth = 4 if tier == 'quick' else 5
    for h in histories(CONTROL, depth - 2):
        yield ('tree', h)
    for k, c in enumerate(controls()):
        if tier == 'quick' and k % 3:
            continue
        for a in ops.OPS:
            yield ('pairs', c, a)
    if tier == 'quick':
        for h in starts(TH2, 2):
            yield ('threads', h, 2, 'thorough')
        for h in starts(TH, 3):
            yield ('contexts', h, 3, tier)
    else:
        for h in starts(TH3, 3):
            yield ('contexts', h, 3, tier)
        for h in starts(TH, 3):
            yield ('threads', h, 3, 'quick')
        for h in starts(TH2, 2):
            yield ('threads', h, 2, tier)


def starts(alpha, n):
    """a thread begins by choosing a network"""
    for h in histories(alpha, n):
        if h[0][0] in ('enter', 'select'):
            yield h


def prepare(tier):
    shim.install()
    global EXPECT
    EXPECT = {}
    for net in (B, BR, E, L):
        def f():
            select_chain_params(net)
            for n in ops.OPS:
                # in the pairs, the outcome does not depend on what was called before
                ctx = contextvars.copy_context()
                EXPECT[net, n] = ctx.run(ops.outcome, n)
        contextvars.copy_context().run(f)
    for (net, n), o in EXPECT.items():
        if n[0] == '!':
            require(o[0] == 'exception', 'operation %s must fail', n)
        elif n[0] != '?':
            require(o == EXPECT[E, n], 'operation %s gives %s with network %s, %s with elements',
                    n, o, net, EXPECT[E, n])
            require(o[0] == 'ok', 'operation %s fails: %s', n, o)


class World:
    """one thread or context of the library next to its model"""

    def __init__(self):
        self.stack = []         # model: networks to be restored
        self.cms = []
        self.cur = B

    def step(self, o, what):
        kind = o[0]
        if kind == 'enter':
            arg, net = SPEC[o[1]]
            cm = ChainParams(arg())
            got = cm.__enter__()
            same(got.NAME, net, what + ': object given by the context manager')
            require(got is get_current_chain_params(), '%s: the object given is not the active one', what)
            self.cms.append(cm)
            self.stack.append(self.cur)
            self.cur = net
        elif kind == 'exit':
            self.cms.pop().__exit__(None, None, None)
            self.cur = self.stack.pop()
        elif kind == 'exitx':
            try:
                raise KeyError('leaving')
            except KeyError:
                if self.cms.pop().__exit__(*sys.exc_info()):
                    raise Violation('%s: exception swallowed' % what)
            self.cur = self.stack.pop()
        elif kind == 'select':
            arg, net = SPEC[o[1]]
            prev, new = select_chain_params(arg())
            same((prev.NAME, new.NAME), (self.cur, net), what + ': previous and new parameters')
            self.cur = net
        elif kind == 'enterbad':
            raises(what, lambda: ChainParams('elements/nonsense').__enter__(), exc=(ValueError,))
        elif kind == 'selectbad':
            raises(what, lambda: select_chain_params('liquid'), exc=(ValueError,))
        elif kind == 'call':
            same(ops.outcome(o[1]), EXPECT[self.cur, o[1]], '%s: %s' % (what, o[1]))
        else:
            assert 0, o

    def light(self, what):
        n = NAMES[self.cur]
        same(get_current_chain_params().NAME, self.cur, what + ': active network')
        same((type(bc.CTransaction()), type(bc.CMutableTransaction()), type(bc.CTxOut()),
              type(bc.CTxIn()), type(bc.CMutableTxIn()), type(bscript.CScript()),
              type(bw.CCoinKey.from_secret_bytes(KEY)), type(bc.COutPoint())),
             n[:7] + (n[9],), what + ': classes of objects made through the generic classes')

    def full(self, what):
        self.light(what)
        n = NAMES[self.cur]
        same(type(bw.CCoinExtKey.from_seed(KEY)), n[7], what + ': extended key class')
        same(type(bw.P2WPKHCoinAddress.from_bytes(b'\x07' * 20)), n[8], what + ': address class')
        same(bc.CoreCoinParams.MAX_MONEY, MAXMONEY, what + ': money limit')
        same(bc.MoneyRange(MAXMONEY + 1), False, what + ': money range')
        for s in ALL_ADDR:
            if s in ACCEPT[self.cur]:
                v = bw.CCoinAddress(s)
                require(isinstance(v, WALLET[self.cur]), '%s: %s is %s', what, s, type(v))
                same(str(v), s, what + ': address')
            else:
                raises('%s: address %s of another network' % (what, s), bw.CCoinAddress, s,
                       exc=(bw.CCoinAddressError,))
        # the parts that generic classes create by themselves
        if self.cur in (E, L):
            same(ops.kinds(bc.CTransaction.deserialize(ops.RAW)),
                 EXPECT[E, 'deserialize'][1][0], what + ': parts of a deserialized transaction')
        else:
            same(ops.kinds(bc.CTransaction.deserialize(ops.BTC_RAW)),
                 EXPECT[B, 'btc'][1][0], what + ': parts of a deserialized transaction')


def isolated(fn):
    """in a context where nothing but the default network was selected"""
    def f():
        select_chain_params('bitcoin')
        fn()
    contextvars.copy_context().run(f)


def run_history(h, rec, known=0):
    """known: the state after so many operations is observed in other cases"""
    w = World()
    for k, o in enumerate(h):
        what = 'after %s' % ' '.join('-'.join(x) for x in h[:k + 1])
        w.step(o, what)
        if k >= known:
            w.light(what)
        rec.state((tuple(w.stack), w.cur))
        rec.step()
    w.full('after %s' % ' '.join('-'.join(x) for x in h))
    return w


def run(case, rec):
    kind = case[0]
    if kind == 'hist':
        rec.trace()
        isolated(lambda: run_history(case[1], rec))
    elif kind == 'tree':
        for n in (0, 1, 2):
            for ext in itertools.product(CONTROL, repeat=n):
                h = case[1] + ext
                if valid(h):
                    rec.trace()
                    isolated(lambda: run_history(h, rec, len(h) - 1 if n else 0))
    elif kind == 'pairs':
        _, ctl, a = case

        def f():
            w = run_history(ctl, rec)
            for b in ops.OPS:
                for n in (a, b):
                    what = 'after %s %s, %s' % (ctl, a, b)
                    same(ops.outcome(n), EXPECT[w.cur, n], what + ': outcome of ' + n)
                    w.light(what)
                    rec.step()
                rec.trace()
            w.full('after %s and %s' % (ctl, a))
            while w.cms:
                w.step(('exit',), 'unwinding')
                w.light('unwinding %s' % (ctl,))
        isolated(f)
    elif kind == 'contexts':
        _, h1, n, tier = case
        for h2 in starts(TH if tier == 'quick' else TH3, n):
            for order in orders(n):
                ws = [World(), World()]
                ctx = [contextvars.Context(), contextvars.Context()]
                for c in ctx:
                    c.run(select_chain_params, 'bitcoin')
                pos = [0, 0]
                for t in order:
                    o = (h1, h2)[t][pos[t]]
                    pos[t] += 1
                    what = 'contexts %s | %s in order %s, step %d of %d' % (h1, h2, order, pos[t], t)
                    ctx[t].run(ws[t].step, o, what)
                    for k in (0, 1):
                        ctx[k].run(ws[k].light, what)
                    rec.step()
                rec.trace()
    elif kind == 'threads':
        _, h1, n, tier = case
        for h2 in starts(TH if tier == 'quick' else TH2, n):
            for order in orders(n):
                threads(h1, h2, order, rec)
                rec.trace()


def orders(n):
    for c in itertools.combinations(range(2 * n), n):
        yield tuple(0 if i in c else 1 for i in range(2 * n))


def threads(h1, h2, order, rec):
    turn = [threading.Semaphore(0), threading.Semaphore(0)]
    done = threading.Semaphore(0)
    problem = []

    def body(t, h):
        w = World()
        k = 0
        while True:
            turn[t].acquire()
            if problem:
                return
            try:
                if k == len(h):
                    w.full('thread %d of %s | %s in order %s' % (t, h1, h2, order))
                    done.release()
                    return
                w.step(h[k], 'thread %d of %s | %s, order %s' % (t, h1, h2, order))
                w.light('thread %d of %s | %s in order %s after %d operations' % (t, h1, h2, order, k + 1))
            except BaseException as e:
                problem.append(e)
            k += 1
            done.release()
    main = get_current_chain_params().NAME
    ts = [threading.Thread(target=body, args=(t, h), daemon=True) for t, h in ((0, h1), (1, h2))]
    for t in ts:
        t.start()
    for t in order + (0, 1):
        turn[t].release()
        done.acquire()
        rec.step()
        if problem:
            break
    if problem:
        for s in turn:
            s.release()
            s.release()
    for t in ts:
        t.join()
    if problem:
        raise problem[0]
    same(get_current_chain_params().NAME, main, 'network of the main thread')
