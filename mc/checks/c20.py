"""C20 the cryptographic library is loaded completely, once asked for, from any
thread; custom paths; libraries without confidential transaction support"""
import ctypes.util
import itertools
import os
import subprocess
import tempfile
import atexit
import shutil
import bitcointx
import bitcointx.core.secp256k1
import elementstx
import elementstx.core.secp256k1 as zk
from bitcointx import ChainParams, select_chain_params
from bitcointx.core.key import CKey
from elementstx.core import (BlindingSuccess, BlindingFailure, unblind_confidential_pair,
                             CConfidentialValue, CConfidentialAsset, CConfidentialNonce, CAsset)
from elementstx.core.script import CElementsScript
from .. import bind, ref, shim, sched, ops
from .. import blindspace as bs
from ..engine import same, require, raises, Violation

PROPERTY = 'C20'
CHUNK = 1
ASSUMPTIONS = ['the zkp library is the stand-in shim/zkpshim.c; threads of one process, CPython']
FUNCS = ['rangeproof_info', 'generator_parse', 'generator_generate', 'generator_generate_blinded',
         'generator_serialize', 'pedersen_commit', 'pedersen_commitment_serialize',
         'pedersen_commitment_parse', 'pedersen_blind_generator_blind_sum', 'rangeproof_sign',
         'rangeproof_rewind', 'surjectionproof_allocate_initialized', 'surjectionproof_destroy',
         'surjectionproof_generate', 'surjectionproof_verify', 'surjectionproof_serialized_size',
         'surjectionproof_serialize', 'ec_pubkey_serialize', 'ecdh', 'ec_pubkey_parse',
         'ecdsa_sign', 'ecdsa_verify', 'ec_pubkey_create', 'context_create']
SCN = bs.mk(('B', 'U'), (bs.C0, bs.U0))
BODIES = ('handle', 'blind', 'unblind', 'info', 'unblind-bad')
HIST = ('full', 'plain', 'partial', 'junk', 'missing', 'dir', 'handle', 'use')
_dir = None
LIB = {}


def bound(tier):
    return ('first use by two threads: all pairs of %d operations, all schedules with up to %s at source lines'
            '%s; all histories of %d operations over %s' % (
                len(BODIES), '2 preemptions for pairs of the loading itself' + (
                    ' (the second one at every 4th line)' if tier == 'quick' else '') + ', 1 for the others',
                '' if tier == 'quick' else '; also at every bytecode with 1 (loading: 2) preemptions, '
                'and with lines of bitcointx as scheduling points', 4 if tier == 'quick' else 5, (HIST,)))


def build():
    global _dir
    d = _dir = tempfile.mkdtemp(prefix='c20-')
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    LIB['full'] = shim.build()
    # only one function of the confidential transactions interface
    with open(d + '/p.c', 'w') as f:
        f.write('int secp256k1_rangeproof_info(void) { return 0; }\n')
    subprocess.run(['gcc', '-shared', '-fPIC', '-o', d + '/partial.so', d + '/p.c', '-Wl,--no-as-needed',
                    '-lsecp256k1'], check=True)
    with open(d + '/e.c', 'w') as f:
        f.write('int nothing_of_interest(void) { return 0; }\n')
    subprocess.run(['gcc', '-shared', '-fPIC', '-o', d + '/plain.so', d + '/e.c', '-Wl,--no-as-needed',
                    '-lsecp256k1'], check=True)
    LIB['partial'] = d + '/partial.so'
    LIB['plain'] = d + '/plain.so'
    LIB['junk'] = d + '/p.c'
    LIB['missing'] = d + '/nowhere.so'
    LIB['dir'] = d


def prepare(tier):
    build()
    select_chain_params('elements')
    global EXPECT, BLINDED, POINTS
    EXPECT, POINTS = {}, {}

    def blinded():
        elementstx.set_custom_secp256k1_path(LIB['full'])
        p = bs.Plain(SCN)
        r = ops.execute(p)
        return p.keys[0], r.after
    ok, BLINDED = sched.forked(blinded)
    require(ok == 'ok', 'blinding with the full library: %s', BLINDED)
    for b in BODIES:
        def alone():
            elementstx.set_custom_secp256k1_path(LIB['full'])
            return body(b, 0)()
        ok, EXPECT[b] = sched.forked(alone)
        require(ok == 'ok', 'operation %s alone: %s', b, EXPECT[b])
    require(EXPECT['handle'][0][:2] == (True, True), 'the handle of a full library: %s', EXPECT['handle'])
    # lengths of the executions
    for mode in modes(tier):
        for a in BODIES:
            POINTS[mode, a] = schedule(mode, a, 'none', 0, ())[2]


MODES = {'line': dict(), 'opcode': dict(opcodes=True),
         'deep': dict(prefixes=(sched.REPO, os.path.realpath(bitcointx.core.secp256k1.__file__)))}


def modes(tier):
    return ('line',) if tier == 'quick' else ('line', 'opcode', 'deep')


def cases(tier):
    n = 4 if tier == 'quick' else 5
    for h in itertools.product(HIST, repeat=n - 2):
        yield ('hist', h, 2)
    for lib in ('plain', 'partial', 'default', 'junk'):
        yield ('config', lib)
    for lib in ('full', 'plain', 'junk', 'partial'):
        for k in range(1, 4):
            yield ('race2', lib, k)
    for mode in modes(tier):
        for a in BODIES:
            for b in BODIES:
                if a == b == 'handle':
                    for i in range(60 if mode == 'line' else 400):
                        yield ('race', mode, a, b, i, 2, 4 if tier == 'quick' else 1)
                elif mode == 'line' or 'handle' in (a, b):
                    for i in range(8):
                        yield ('race', mode, a, b, i, 1, 1)


def describe(h):
    """everything there is to know about a handle"""
    lib = h.lib
    fns = []
    for n in FUNCS:
        f = getattr(lib, 'secp256k1_' + n, None)
        fns.append(None if f is None else (str(f.restype), [str(a) for a in f.argtypes or ()]))
    return ((h.cap.has_zkp, h.ctx.blind is not None, h.ctx.sign is not None, h.ctx.verify is not None),
            repr(h.cap), fns)


def body(name, t):
    if name == 'none':
        return lambda: None
    if name == 'handle':
        def f():
            h = zk.get_secp256k1()
            return describe(h)
        return f
    key, after = BLINDED
    if name == 'blind':
        def f():
            r = ops.execute(bs.Plain(SCN))
            if r.exc:
                raise r.exc
            return ops.verdict(r.res), r.after
        return f
    if name in ('unblind', 'unblind-bad'):
        def f():
            o = bind.txout(after[2][0])
            u = o.unblind_confidential_pair(CKey.from_secret_bytes(key if name == 'unblind' else b'\x33' * 32),
                                            ref.outwit(after, 0)[1])
            return ops.verdict(u)
        return f
    if name == 'info':
        def f():
            w = bind.outwit(ref.outwit(after, 0))
            return repr(w.get_rangeproof_info())
        return f
    assert 0, name


def schedule(mode, a, b, first, preempt, lib='full'):
    """in a fresh process whose library is not loaded yet: results, points"""
    def child():
        elementstx.set_custom_secp256k1_path(LIB[lib])

        def wrap(f):
            def g():
                select_chain_params('elements')
                return f()
            return g
        bodies = [wrap(body(a, 0)), wrap(body(b, 1))]
        r = sched.Run(bodies, first, preempt, **MODES[mode])
        ended = r.go()
        after = describe(zk.get_secp256k1()) if lib == 'full' else None
        return ended, r.results, r.points, len(r.trail), after
    what = '%s || %s, %s steps, first thread %d, preempted at %s' % (a, b, mode, first, preempt)
    ok, v = sched.forked(child)
    if ok != 'ok':
        raise Violation('%s: the process ended: %s %s' % (what, ok, v))
    ended, results, points, trail, after = v
    require(ended, '%s: deadlock', what)
    if lib == 'full':
        for n, res in ((a, results[0]), (b, results[1])):
            if n != 'none':
                same(res, ('ok', EXPECT[n]), what + ': ' + n)
        same(after, EXPECT['handle'], what + ': handle afterwards')
    return results, trail, points


def run(case, rec):
    kind = case[0]
    if kind == 'race':
        _, mode, a, b, i, k, tier_stride = case
        na = POINTS[mode, a]
        # the preempted thread is a: first preemption inside of a
        if k == 2:
            if i == 0:
                schedule(mode, a, b, 0, ())
                rec.trace()
            if i >= na:
                # chunking must not depend on the length of the code
                todo = ()
            else:
                step = 60 if mode == 'line' else 400
                todo = range(i + 1, na + 1, step)
            for p in todo:
                schedule(mode, a, b, 0, (p,))
                rec.state((mode, a, b, p))
                rec.trace()
                # then b runs up to q, then a finishes
                nb = POINTS[mode, b]
                stride = tier_stride if mode == 'line' else max(1, nb // 60)
                for q in range(p + 1, p + nb + 1, stride):
                    schedule(mode, a, b, 0, (p, q))
                    rec.state((mode, a, b, p, q))
                    rec.step(2)
                    rec.trace()
        else:
            for p in range(i + 1, na + 1, 8):
                schedule(mode, a, b, 0, (p,))
                rec.state((mode, a, b, p))
                rec.step()
                rec.trace()
    elif kind == 'race2':
        # libraries that cannot be used, from two threads
        _, lib, k = case
        for p in range(k, POINTS['line', 'handle'] + 1, 3):
            results, trail, points = schedule('line', 'handle', 'handle', 0, (p,), lib)
            rec.trace()
            rec.state((lib, p))
            for r in results:
                check_handle(lib, r[0] == 'ok', r[1] if r[0] == 'ok' else None, 'race with library ' + lib)
    elif kind == 'hist':
        for ext in itertools.product(HIST, repeat=case[2]):
            h = case[1] + ext
            ok, v = sched.forked(lambda: history(h))
            require(ok == 'ok', 'history %s: %s %s', h, ok, v)
            rec.trace()
            rec.step(len(h))
            for s in v:
                rec.state(s)
    elif kind == 'config':
        ok, v = sched.forked(lambda: config(case[1]))
        require(ok == 'ok', 'library %s: %s %s', case[1], ok, v)
        rec.trace()
        rec.step(v)


def check_handle(lib, got, desc, what):
    """what asking for a handle must give with this library file"""
    if lib in ('junk', 'partial', 'missing'):
        require(not got, '%s: got a handle', what)
    else:
        require(got, '%s: no handle', what)
        z = lib == 'full'
        same(desc[0], (z, z, True, True), what + ': capabilities and contexts')
        if z:
            same(desc, EXPECT['handle'], what + ': handle')


def handle():
    try:
        h = zk.get_secp256k1()
    except Exception as e:
        return False, e
    return True, describe(h)


def history(h):
    path = None         # model: path chosen
    loaded = None       # model: library in use
    select_chain_params('elements')
    seen = []
    same(elementstx.get_custom_secp256k1_path(), None, 'initial path')
    for k, o in enumerate(h):
        what = 'after %s' % (h[:k + 1],)
        if o in ('missing', 'dir'):
            raises(what, elementstx.set_custom_secp256k1_path, LIB[o], exc=(ValueError,))
        elif o in LIB:
            elementstx.set_custom_secp256k1_path(LIB[o])
            path = o
        else:
            lib = loaded or path or 'plain'     # the default one of the system is a plain one
            if path is None and loaded is None:
                seen.append('default')
            if o == 'handle':
                got, desc = handle()
                check_handle(lib, got, desc, what)
                if got:
                    loaded = lib
            else:
                usable = lib not in ('junk', 'partial')
                use(lib, what)
                if usable:
                    loaded = lib
        same(elementstx.get_custom_secp256k1_path(), None if path is None else LIB[path],
             what + ': chosen path')
        same(bitcointx.get_custom_secp256k1_path(), None, what + ': path of bitcointx')
        seen.append((path, loaded))
    return seen


def use(lib, what):
    key, after = BLINDED
    if lib == 'full':
        for n in ('blind', 'unblind', 'info'):
            same(body(n, 0)(), EXPECT[n], what + ': ' + n)
        return
    before = None
    # everything confidential must be reported as impossible
    raises(what + ': range proof information', body('info', 0))
    p = bs.Plain(SCN)
    r = ops.execute(p)
    require(r.exc is not None or isinstance(r.res, BlindingFailure), '%s: blinding reported %s', what, r.res)
    try:
        u = bind.txout(after[2][0]).unblind_confidential_pair(
            CKey.from_secret_bytes(key), ref.outwit(after, 0)[1])
    except Exception:
        pass
    else:
        require(u.error, '%s: unblinding reported %s', what, u)


PLAIN_OPS = [n for n in ops.OPS if n not in ('blind', 'unblind_fail')]


def config(lib):
    """everything that is not about confidential transactions works the same"""
    want = {}

    def full():
        elementstx.set_custom_secp256k1_path(LIB['full'])
        select_chain_params('elements')
        return {n: ops.outcome(n) for n in PLAIN_OPS}
    ok, want = sched.forked(full)
    require(ok == 'ok', 'operations with the full library: %s', want)
    select_chain_params('elements')
    if lib != 'default':
        elementstx.set_custom_secp256k1_path(LIB[lib])
    for rnd in (0, 1):
        for n in PLAIN_OPS:
            if n.startswith('!blind'):
                require(ops.outcome(n)[0] == 'exception', '%s with library %s', n, lib)
                continue
            same(ops.outcome(n), want[n], 'operation %s with library %s' % (n, lib))
        use('plain' if lib == 'default' else lib, 'library %s' % lib)
    return 2 * len(PLAIN_OPS)
