"""C33 an operation that is interrupted leaves nothing behind

Fault injection at every point where library code calls other code
(python-bitcointx, the native library, hashing, the random source, streams,
constructors): the call raises instead. Functions that only restore or release
something are never interrupted: what happens then is not specified."""
import contextvars
import dis
import itertools
import os
import sys
import types
import bitcointx
import elementstx.core.secp256k1 as zk
from bitcointx import ChainParams, select_chain_params
from bitcointx.core import CoreCoinParams
from bitcointx.core.key import CKey, CPubKey
from bitcointx.core.script import SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_Type
from elementstx.core import (CElementsTransaction, CConfidentialValue, CConfidentialAsset, CConfidentialNonce,
                             calculate_asset, generate_asset_entropy)
from elementstx.core.script import CElementsScript, TaprootElementsScriptTree
from elementstx.wallet import CElementsAddress, CCoinConfidentialAddress, CElementsLiquidV1Address
from .. import shim, ops, bind, ref, sched, txspace
from .. import blindspace as bs
from ..engine import same, require, Violation
from . import c17

PROPERTY = 'C33'
CHUNK = 1
ASSUMPTIONS = ['an interruption happens in a call that library code makes to code outside of the library; '
               'not in the calls that restore the class dispatcher or release a proof']
M = sys.monitoring
TOOL = 3
STAR = dis.opmap['CALL_FUNCTION_EX']
NETS = {'bitcoin': (('select', 'bitcoin'),), 'elements': (('select', 'elements'),),
        'liquid': (('select', 'liquid'),),
        'nested': (('enter', 'elements'), ('enter', 'liquid'), ('select', 'bitcoin'), ('enter', 'elements'))}
QUICK = (('elements', 'memory'), ('nested', 'interrupt'))
FIRST = ('blind', 'unblind_fail')
TWO = 90        # operations that are interrupted twice have so few points

# calls that are never interrupted
RESTORE = ('activate_class_dispatcher', 'select_chain_params', '__exit__', '__del__', 'close', 'release',
           'reset', 'surjectionproof_destroy', 'context_destroy', 'secp256k1_surjectionproof_destroy',
           'secp256k1_context_destroy')


class Interrupt(BaseException):
    pass


KINDS = {'interrupt': Interrupt, 'memory': MemoryError, 'keyboard': KeyboardInterrupt}


def outside(fn):
    """a call of this leaves the library"""
    if getattr(fn, '__name__', '') in RESTORE:
        return False
    if isinstance(fn, type):
        return not issubclass(fn, BaseException) and fn.__module__ != 'builtins'
    f = getattr(fn, '__func__', fn)
    if isinstance(f, types.FunctionType):
        file = os.path.realpath(f.__code__.co_filename)
        return not file.startswith(sched.REPO) and not file.endswith('/contextlib.py')
    if type(fn).__name__ == '_FuncPtr':
        return True
    if isinstance(fn, types.BuiltinFunctionType):
        own = fn.__self__
        mod = own.__name__ if isinstance(own, types.ModuleType) else fn.__module__ or type(own).__module__
        return mod not in ('builtins', None)
    if isinstance(fn, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        return fn.__objclass__.__module__ in ('_io', '_hashlib', '_struct')
    return callable(fn) and not isinstance(fn, types.MethodWrapperType) \
        and not type(fn).__module__.startswith(('builtins', 'elementstx'))


class Injector:
    """counts the calls, and raises in one of them"""

    def __init__(self):
        self.on = False
        self.lib = {}
        self.code = {}
        M.use_tool_id(TOOL, 'calls')
        M.register_callback(TOOL, M.events.CALL, self.event)
        M.set_events(TOOL, M.events.CALL)

    def event(self, code, offset, fn, arg0):
        r = self.lib.get(code.co_filename)
        if r is None:
            r = self.lib[code.co_filename] = os.path.realpath(code.co_filename).startswith(sched.REPO)
        if not r:
            return M.DISABLE
        # (3.12 loses references when a callback raises at a call with *args)
        if self.on and outside(fn) and not self.starred(code, offset):
            self.n += 1
            if self.n == self.at:
                self.where = '%s:%s calls %s' % (
                    os.path.basename(code.co_filename), code.co_qualname,
                    getattr(fn, '__qualname__', getattr(fn, '__name__', type(fn).__name__)))
                raise self.exc

    def starred(self, code, offset):
        c = self.code.get(code)
        if c is None:
            c = self.code[code] = code.co_code
        return c[offset] == STAR

    def run(self, fn, at=None, exc=None):
        self.n, self.at, self.exc, self.where = 0, at, exc, None
        self.on = True
        try:
            return fn()
        finally:
            self.on = False


INJ = None


def prepare(tier):
    global EXPECT, COUNT, INJ
    shim.build()
    INJ = Injector()

    def clean():
        """results without interruptions, in a process of its own"""
        shim.install()
        c17.prepare(tier)
        count = {}
        for n in ops.OPS:
            def f():
                select_chain_params('elements')
                INJ.run(lambda: ops.outcome(n))
            contextvars.copy_context().run(f)
            count[n] = INJ.n
        return c17.EXPECT, count
    ok, res = sched.forked(clean)
    require(ok == 'ok', 'without interruptions: %s', res)
    EXPECT, COUNT = res
    c17.EXPECT = EXPECT


def bound(tier):
    return ('every call out of the library that %d operations and %d operations on shared objects make, in %d control '
            'states, interrupted by %s; the first use of the native library by %s; %s' % (
                len(ops.OPS), len(SHARED), len(nets(tier)), ' or '.join(kinds(tier)), FIRST,
                'pairs of interruptions of operations with up to %d such calls' % (TWO if tier != 'quick' else 12)))


def kinds(tier):
    return ('interrupt', 'memory') if tier == 'quick' else tuple(KINDS)


def nets(tier):
    return ('elements', 'nested') if tier == 'quick' else tuple(NETS)


def cases(tier):
    two = 12 if tier == 'quick' else TWO
    for op in FIRST:
        for kind in kinds(tier):
            for i in range(8):
                yield ('first', op, kind, i, 8)
    for net, kind in itertools.product(nets(tier), kinds(tier)):
        if tier != 'quick' or (net, kind) in QUICK:
            for op in ops.OPS:
                yield ('op', net, op, kind)
            for op in SHARED:
                yield ('shared', net, op, kind)
    for op in ops.OPS:
        if 0 < COUNT[op] <= two:
            yield ('two', 'elements', op, kinds(tier)[0])
    for scn in scenarios(tier):
        yield ('blinding', scn, 'interrupt')


# operations on objects that live on

def make_shared(op):
    o = types.SimpleNamespace()
    o.t, o.m = bind.tx(ops.TX), bind.tx(ops.TX, True)
    o.spent = [bind.txout(txspace.mk_out(i)) for i in range(len(o.t.vin))]
    o.script = CElementsScript(b'\x51\xab\x52\x6a')
    o.conf = CElementsAddress(ops.E_CONF)
    o.plain = CElementsAddress(ops.E_PKH)
    o.liquid = CElementsLiquidV1Address(ops.L_CONF)
    o.pub = CPubKey(ops.PUB)
    o.tree = TaprootElementsScriptTree([CElementsScript(b'\x51', name='a'), CElementsScript(b'\x52', name='b')],
                                       internal_pubkey=ops.XOnlyPubKey(ops.PUB[1:]))
    o.key = CKey.from_secret_bytes(ops.KEY)
    o.pegout = CElementsScript(b'\x6a\x20' + b'\x07' * 32 + b'\x01\x51')
    o.blinded = None
    if op == 'unblind':
        o.blind = bs.Plain(ops.BLIND)
        with ChainParams('elements'):
            o.blinded = ops.execute(o.blind)
    return o


def look(o):
    """everything that may be observed of the shared objects"""
    return (bind.un_tx(o.t), bind.un_tx(o.m), ops.kinds(o.t), ops.kinds(o.m), o.t.serialize(), o.m.serialize(),
            o.t.GetTxid(), o.m.GetTxid(), o.t.GetHash(), o.t.wit.serialize(), hash(o.t),
            [bind.un_txout(v) for v in o.spent], bytes(o.script), ops.addr(o.conf), ops.addr(o.plain),
            ops.addr(o.liquid), str(o.conf.to_unconfidential()), bytes(o.conf.blinding_pubkey), bytes(o.pub),
            bytes(o.tree.merkle_root), bytes(o.key), bytes(o.pegout), o.blinded and bind.un_tx(o.blinded.tx))


def schnorr(o, t, **kw):
    return o.script.sighash_schnorr(t, 0, o.spent, hashtype=SIGHASH_Type(1), genesis_block_hash=b'\x07' * 32, **kw)


SHARED = {
    'serialize': lambda o: (o.t.serialize(), o.m.serialize()),
    'hashes': lambda o: (o.t.GetTxid(), o.t.GetHash(), o.m.GetTxid(), hash(o.t)),
    'fresh-hashes': lambda o: (lambda t: (t.GetTxid(), t.GetHash(), t.GetTxid()))(bind.tx(ops.TX)),
    'to-mutable': lambda o: bind.un_tx(o.t.to_mutable()),
    'to-immutable': lambda o: bind.un_tx(o.m.to_immutable()),
    'clone': lambda o: (bind.un_tx(o.t.clone()), bind.un_tx(o.m.clone())),
    'repr': lambda o: (repr(o.t), repr(o.m), str(o.t.vout[0]), repr(o.t.wit)),
    'size': lambda o: (o.t.get_virtual_size(), o.m.get_virtual_size()),
    'legacy': lambda o: o.script.sighash(o.t, 0, SIGHASH_Type(1), sigversion=SIGVERSION_BASE),
    'legacy-single': lambda o: o.script.sighash(o.t, 1, SIGHASH_Type(0x83), sigversion=SIGVERSION_BASE),
    'legacy-mutable': lambda o: o.script.sighash(o.m, 1, SIGHASH_Type(2), sigversion=SIGVERSION_BASE),
    'v0': lambda o: [o.script.sighash(t, 0, SIGHASH_Type(1), amount=CConfidentialValue(5),
                                      sigversion=SIGVERSION_WITNESS_V0) for t in (o.t, o.m)],
    'schnorr': lambda o: [schnorr(o, t) for t in (o.t, o.m)],
    'addresses': lambda o: (ops.addr(o.conf.to_unconfidential()), ops.addr(o.liquid.to_unconfidential()),
                            str(type(o.conf).from_unconfidential(o.conf.to_unconfidential(), o.pub)),
                            str(CElementsAddress.from_scriptPubKey(o.plain.to_scriptPubKey())),
                            str(o.conf.get_output_size()), o.liquid.get_output_size()),
    'tree': lambda o: [tuple(bytes(v) for v in o.tree.get_script_with_control_block(n)) for n in ('a', 'b')],
    'pegout': lambda o: (o.pegout.is_unspendable(), repr(o.pegout.get_pegout_data()), repr(o.pegout)),
    'unblind': lambda o: ops.verdict(bs.unblind_out(o.blinded, 0, o.blind.keys[0])),
    'issuance': lambda o: calculate_asset(generate_asset_entropy(o.t.vin[0].prevout, ops.Uint256(b"\x05" * 32))).data,
    'equal': lambda o: (o.t == bind.tx(ops.TX), o.t.vout[0] == o.m.vout[0], o.conf == o.plain),
}


def run(case, rec):
    kind = case[0]
    if kind == 'first':
        points = []
        k = case[3] + 1
        while True:
            where = child(lambda: first(case[1], case[2], k))
            if where is None:
                break
            points.append((k, where))
            k += case[4]
    else:
        points = child(lambda: {'op': one, 'shared': shared, 'two': two,
                                'blinding': blinding}[kind](*case[1:]))
    for i, p in enumerate(points):
        rec.state((case, i))
        rec.trace()
        rec.step(2)
    rec.count(kind, len(points))


def child(fn):
    def f():
        try:
            return 'fine', fn()
        except Violation as e:
            return 'violation', str(e)
    ok, res = sched.forked(f)
    require(ok == 'ok', 'an interruption ends with: %s', res)
    if res[0] == 'violation':
        raise Violation(res[1])
    return res[1]


def state(net):
    w = c17.World()
    for o in NETS[net]:
        w.step(o, net)
    return w


def interrupted(fn, k, kind):
    """None if there is no such call; otherwise where it was"""
    exc = KINDS[kind]('injected')
    try:
        INJ.run(fn, k, exc)
    except BaseException as e:
        if INJ.where is None:
            raise
        require(e is exc, 'the exception %r raised where %s becomes %r', exc, INJ.where, e)
        return INJ.where
    require(INJ.where is None, 'the exception %r raised where %s does not reach the caller', exc, INJ.where)
    return None


def clean_exit(w, where):
    what = 'after an interruption where %s' % where
    w.light(what)
    illegal, live, bad = shim.health()
    require(not illegal and not live and not bad, '%s: native library misused %d times, %d proofs leaked, '
            '%d wrong releases', what, illegal, live, bad)
    return what


def leave(w, what):
    while w.cms:
        w.step(('exit',), what)
        w.light(what)


def expected(name):
    """an operation as it is given: exceptions of its own are part of it"""
    f = ops.OPS[name]

    def g():
        return f()
    return g


def attempt(name, k, kind):
    """interrupt the operation; an expected failure of it may come first"""
    try:
        return interrupted(expected(name), k, kind)
    except Violation:
        raise
    except Exception:
        return None


def isolated(fn):
    out = []

    def f():
        select_chain_params('bitcoin')
        out.append(fn())
    contextvars.copy_context().run(f)
    return out[0]


def one(net, op, kind):
    def f():
        shim.install()
        w = state(net)
        k, points = 0, []
        while True:
            where = attempt(op, k + 1, kind)
            if where is None:
                break
            what = clean_exit(w, where)
            same(ops.outcome(op), EXPECT[w.cur, op], '%s, and again: %s' % (what, op))
            points.append(where)
            k += 1
        w.full('after %d interruptions of %s' % (k, op))
        leave(w, 'after %d interruptions of %s' % (k, op))
        return points
    return isolated(f)


def two(net, op, kind):
    """interrupted, and interrupted again when it is repeated"""
    def f():
        shim.install()
        w = state(net)
        k, points = 1, []
        while True:
            a = attempt(op, k, kind)
            if a is None:
                break
            j = 1
            while True:
                b = attempt(op, j, kind)
                if b is None:
                    break
                what = clean_exit(w, a + ' and then where ' + b)
                same(ops.outcome(op), EXPECT[w.cur, op], '%s, and again: %s' % (what, op))
                points.append((a, b))
                j += 1
                a = attempt(op, k, kind)
            k += 1
        w.full('after %d interruptions of %s' % (len(points), op))
        return points
    return isolated(f)


def shared(net, op, kind):
    def f():
        shim.install()
        w = state(net)
        o = make_shared(op)
        before = look(o)
        # on objects of their own: nothing is computed beforehand
        want = SHARED[op](make_shared(op))
        k, points = 0, []
        while True:
            fresh = make_shared(op)
            where = interrupted(lambda: SHARED[op](fresh), k + 1, kind)
            if where is None:
                break
            what = clean_exit(w, where)
            same(look(fresh), before, '%s: objects given to %s' % (what, op))
            same(SHARED[op](fresh), want, '%s, and again: %s' % (what, op))
            where = interrupted(lambda: SHARED[op](o), k + 1, kind)
            same(look(o), before, '%s: objects used by %s all the time' % (what, op))
            same(SHARED[op](o), want, '%s, and again: %s of objects used all the time' % (what, op))
            points.append(where)
            k += 1
        w.full('after %d interruptions of %s' % (k, op))
        return points
    return isolated(f)


def first(op, kind, k):
    """the first use of the native library; number of calls, or None"""
    def f():
        shim.install()
        w = state('elements')
        where = attempt(op, k, kind)
        if where is None:
            return None
        what = clean_exit(w, 'it is first used and ' + where)
        h = zk.get_secp256k1()
        require(h is zk.get_secp256k1(), '%s: another handle each time', what)
        require(h.cap.has_zkp and h.ctx.blind and h.ctx.sign and h.ctx.verify, '%s: incomplete handle %s', what, h)
        for n in (op, 'blind', 'unblind_fail', 'sighash_v0'):
            same(ops.outcome(n), EXPECT[w.cur, n], '%s: %s' % (what, n))
        w.light(what)
        return where
    return isolated(f)


def scenarios(tier):
    out = [s for s in itertools.chain(bs.space_options('quick'), bs.space_issuance('quick'))]
    return out[::150] if tier == 'quick' else out[::10]


def blinding(scn, kind):
    """what an interrupted blinding may not touch, and blinding again with the same arguments"""
    def f():
        shim.install()
        w = state('elements')
        p = bs.Plain(scn)
        _, kw = p.realise()
        given = ops.args(kw)
        ref_run = ops.execute(p, **kw)
        want = ref_run.after, ops.verdict(ref_run.res) if ref_run.exc is None else type(ref_run.exc)
        before = bind.un_tx(p.realise()[0])
        k, points = 0, []
        while True:
            tx, _ = p.realise()
            rand = bs.Rand(p.o['rand'])

            def go():
                try:
                    tx.blind(**kw, _rand_func=rand)
                except MemoryError:
                    raise
                except Exception:
                    pass
            where = interrupted(go, k + 1, kind)
            if where is None:
                break
            what = clean_exit(w, where)
            after = bind.un_tx(tx)
            same((after[0], after[3], [i[:4] + i[5:] for i in after[1]], [o[3] for o in after[2]]),
                 (before[0], before[3], [i[:4] + i[5:] for i in before[1]], [o[3] for o in before[2]]),
                 what + ': what blinding does not concern')
            for i, x in enumerate(p.out):
                if not x[2]:
                    same(after[2][i], before[2][i], '%s: output %d that was not to be blinded' % (what, i))
            for i, (a, t) in enumerate(p.iss_keys):
                if not a and not t:
                    same(after[1][i], before[1][i], '%s: input %d that was not to be blinded' % (what, i))
            same(ops.args(kw), given, what + ': arguments of blind()')
            r = ops.execute(p, **kw)
            same((r.after, ops.verdict(r.res) if r.exc is None else type(r.exc)), want, what + ', and another one again')
            points.append(where)
            k += 1
        w.full('after %d interruptions of blinding' % k)
        return points
    return isolated(f)
