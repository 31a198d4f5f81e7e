"""C24 independent operations in different threads do not disturb each other"""
import importlib.util
import os
from bitcointx import select_chain_params, get_current_chain_params
from .. import sched, shim, ops, bind, ref
from ..engine import same, require, Violation

PROPERTY = 'C24'
CHUNK = 1
ASSUMPTIONS = ['the zkp library is the stand-in shim/zkpshim.c, which has no state of its own; CPython; '
               'switches happen between source lines (thorough: bytecodes) of the library']
NETS = ('elements', 'elements/liquidv1', 'bitcoin')


def second():
    """the same operations on other data"""
    spec = importlib.util.spec_from_file_location('mc.ops_b', ops.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


OPS_B = second()
SETS = (ops, OPS_B)
SHARED = bind.tx(ops.BASES[4] if len(ops.BASES) > 4 else ops.TX)
NAMES = [n for n in ops.OPS] + ['shared']
SLOW = ('blind', '!blind', '!blind_ctx')
# the ones that are paired with everything else
CORE = ['deserialize', 'sighash_v0', 'conf', 'blind', '?addr', '!truncated']


def bound(tier):
    return ('%d operations, each preempted by the whole of each of %d others (on different data, in '
            'different networks of %s) and of itself, at every source line that it passes (the first %s '
            'the last time that it passes the line)%s; with itself also with a second preemption, %d pairs '
            'of lines' % (len(NAMES), len(CORE if tier == 'quick' else NAMES), NETS,
                          *(('time and', '', 200) if tier == 'quick' else
                            ('time and', ' and at every bytecode for 2 others', 1000))))


def shared():
    return (SHARED.serialize(), SHARED.GetTxid(), SHARED.GetHash(), SHARED.get_virtual_size(),
            ops.CElementsScript(b'\x51').sighash(SHARED, 0, 1, sigversion=ops.SIGVERSION_BASE))


def act(side, net, name):
    """returns what the operation gives with this network in this thread"""
    def f():
        select_chain_params(net)
        out = ('ok', shared()) if name == 'shared' else SETS[side].outcome(name)
        return out, get_current_chain_params().NAME
    return f


def prepare(tier):
    shim.install()
    global EXPECT, POINTS
    EXPECT, POINTS = {}, {}
    for side in (0, 1):
        for net in NETS:
            for n in NAMES:
                for mode in (('line',) if tier == 'quick' else ('line', 'opcode')):
                    r = sched.Run([act(side, net, n), lambda: None], opcodes=mode == 'opcode')
                    require(r.go(), '%s alone does not end', n)
                    EXPECT[side, net, n] = r.results[0]
                    POINTS[mode, side, net, n] = tuple(r.locations)
    import elementstx.core.secp256k1 as zk
    zk.get_secp256k1()


def cases(tier):
    for k, a in enumerate(NAMES):
        for j, b in enumerate(NAMES):
            if a != b and tier == 'quick' and b not in CORE:
                continue
            # every pair of networks is met by every kind of operation
            for i, (na, nb) in enumerate(NETPAIRS):
                if i == (k + j) % len(NETPAIRS) or tier != 'quick' and a in CORE and b in CORE:
                    yield ('pair', 'line', a, na, b, nb, 1)
        for net in NETS[:1 if tier == 'quick' else 3]:
            yield ('pair', 'line', a, net, a, net, 2)
        for i in range(6):
            yield ('self2', 'line', a, i, 6, 200 if tier == 'quick' else 1000)
    if tier != 'quick':
        for a in NAMES:
            for b in ('deserialize', a):
                yield ('pair', 'opcode', a, 'elements', b, 'elements/liquidv1', 1)


NETPAIRS = [(x, y) for x in NETS for y in NETS if x != y]


def schedule(mode, a, na, b, nb, preempt, rec):
    r = sched.Run([act(0, na, a), act(1, nb, b)], 0, preempt, opcodes=mode == 'opcode')
    what = '%s in %s || %s in %s, by %s, switched at %s' % (a, na, b, nb, mode, preempt)
    require(r.go(), '%s: deadlock', what)
    same(r.results[0], EXPECT[0, na, a], what + ': first thread')
    same(r.results[1], EXPECT[1, nb, b], what + ': second thread')
    rec.trace()
    rec.step(len(r.trail) + 1)
    rec.state((mode, a, na, b, nb, preempt))


def run(case, rec):
    kind = case[0]
    if kind == 'pair':
        _, mode, a, na, b, nb, occ = case
        for p in sched.selected(POINTS[mode, 0, na, a], occ):
            schedule(mode, a, na, b, nb, (p,), rec)
    else:
        # a second switch somewhere in the second operation
        _, mode, a, i, m, limit = case
        na = 'elements'
        ps = sched.selected(POINTS[mode, 0, na, a], 1)
        qs = sched.selected(POINTS[mode, 1, na, a], 1)
        step = len(ps) * len(qs) // limit + 1
        for k, (p, q) in enumerate((p, q) for p in ps for q in qs):
            if k % step == 0 and (k // step) % m == i:
                schedule(mode, a, na, a, na, (p, p + q), rec)
