"""C04 mutability discipline: histories of construct / convert / mutate over a
heap of transactions and transaction parts, against a value-semantics heap."""
from bitcointx.core import Uint256
from bitcointx.core.script import CScriptWitness
from elementstx.core import (CConfidentialAsset, CConfidentialValue, CConfidentialNonce)
from elementstx.core.script import CElementsScript
from .. import ref, bind, txspace
from ..engine import same, require, Violation

PROPERTY = 'C04'

BASE = (1, (txspace.mk_in(0, iss=txspace.ISSUANCES[3], n=5), txspace.mk_in(1, pegin=True)),
        (txspace.mk_out(0, a=txspace.A33, v=txspace.VALUES[8], n=txspace.NONCES[2]),
         txspace.mk_out(1)), 77,
        ((((b's', b'p'), b'ir', b'kr', (b'pw',)), ref.NULL_INWIT),
         ((b'sp', b'rp'), ref.NULL_OUTWIT)))
NOWIT = BASE[:4] + (((ref.NULL_INWIT,) * 2, (ref.NULL_OUTWIT,) * 2),)
EMPTY = (1, (), (), 0, ref.NO_WIT)
BASES = {'full': BASE, 'nowit': NOWIT, 'empty': EMPTY}


def bound(tier):
    return ('all histories: 1 construction (4 mutability patterns x 3 values), then up to %d '
            'operations out of {4 conversions, 22 field mutations} on any live object; same '
            'for every kind of transaction part; %d stand-alone witnesses x up to 2 of %d conversions x '
            'structural changes; an attempted write to every field of every '
            'immutable object' % (2 if tier == 'quick' else 3, len(WITS), len(WCONV)))


def sub(t, path, v):
    if not path:
        return v
    i = path[0]
    if i >= len(t):
        raise IndexError
    return t[:i] + (sub(t[i], path[1:], v),) + t[i + 1:]


SW = CScriptWitness
# name -> (setter on the library object, path in the model, model value)
MUT = {}


def _m(name, setter, path, value):
    MUT[name] = (setter, path, value)


def _set(*attrs):
    *path, last = attrs

    def f(o, v):
        for a in path:
            o = o[a] if isinstance(a, int) else getattr(o, a)
        setattr(o, last, v)
    return f


# part mutations: kind -> name -> (attrs, lib value, model path, model value)
PART = {
    'outpoint': {
        'hash': (('hash',), b'\xee' * 32, (0,), b'\xee' * 32),
        'n': (('n',), 9, (1,), 9),
    },
    'txin': {
        'prevout.hash': (('prevout', 'hash'), b'\xee' * 32, (0,), b'\xee' * 32),
        'prevout.n': (('prevout', 'n'), 9, (1,), 9),
        'scriptSig': (('scriptSig',), CElementsScript(b'\x52'), (2,), b'\x52'),
        'nSequence': (('nSequence',), 5, (3,), 5),
        'assetIssuance': (('assetIssuance',), bind.issuance(txspace.ISSUANCES[1]), (4,),
                          txspace.ISSUANCES[1]),
        'is_pegin': (('is_pegin',), True, (5,), True),
    },
    'txout': {
        'nAsset': (('nAsset',), CConfidentialAsset(txspace.B33), (0,), txspace.B33),
        'nValue': (('nValue',), CConfidentialValue(3), (1,), txspace.val(3)),
        'nNonce': (('nNonce',), CConfidentialNonce(txspace.NONCES[3]), (2,), txspace.NONCES[3]),
        'scriptPubKey': (('scriptPubKey',), CElementsScript(b'\x53'), (3,), b'\x53'),
    },
    'inwit': {
        'scriptWitness': (('scriptWitness',), SW((b'new',)), (0,), (b'new',)),
        'issuanceAmountRangeproof': (('issuanceAmountRangeproof',), b'nir', (1,), b'nir'),
        'inflationKeysRangeproof': (('inflationKeysRangeproof',), b'nkr', (2,), b'nkr'),
        'pegin_witness': (('pegin_witness',), SW((b'npw',)), (3,), (b'npw',)),
    },
    'outwit': {
        'surjectionproof': (('surjectionproof',), b'nsp', (0,), b'nsp'),
        'rangeproof': (('rangeproof',), b'nrp', (1,), b'nrp'),
    },
}

_m('nVersion', _set('nVersion'), (0,), 3)
_m('nLockTime', _set('nLockTime'), (3,), 0xfffffff0)
for _k, (_attrs, _lv, _mp, _mv) in PART['txin'].items():
    _m('vin0.' + _k, (lambda a: lambda o: _set('vin', 0, *a[0])(o, a[1]))((_attrs, _lv)),
       (1, 0) + _mp, _mv)
for _k, (_attrs, _lv, _mp, _mv) in PART['txout'].items():
    _m('vout0.' + _k, (lambda a: lambda o: _set('vout', 0, *a[0])(o, a[1]))((_attrs, _lv)),
       (2, 0) + _mp, _mv)
for _k, (_attrs, _lv, _mp, _mv) in PART['inwit'].items():
    _m('inwit0.' + _k, (lambda a: lambda o: _set('wit', 'vtxinwit', 0, *a[0])(o, a[1]))((_attrs, _lv)),
       (4, 0, 0) + _mp, _mv)
for _k, (_attrs, _lv, _mp, _mv) in PART['outwit'].items():
    _m('outwit0.' + _k, (lambda a: lambda o: _set('wit', 'vtxoutwit', 0, *a[0])(o, a[1]))((_attrs, _lv)),
       (4, 1, 0) + _mp, _mv)

NEWIN = txspace.mk_in(5)
NEWOUT = txspace.mk_out(5)


def _grow(o):
    o.vin.append(bind.txin(NEWIN, True))
    o.wit.vtxinwit.append(bind.inwit(((b'g',), b'', b'', ()), True))


def _growm(t):
    n = len(t[1])
    iw = tuple(ref.inwit(t, i) for i in range(n))
    return (t[0], t[1] + (NEWIN,), t[2], t[3], (iw + (((b'g',), b'', b'', ()),), t[4][1]))


def _growout(o):
    o.vout.append(bind.txout(NEWOUT, True))


def _growoutm(t):
    return (t[0], t[1], t[2] + (NEWOUT,), t[3], t[4])


def _newwit(o):
    o.wit = bind.wit(((ref.NULL_INWIT,) * len(o.vin), ((b'q', b''),) * len(o.vout)), True)


def _newwitm(t):
    return t[:4] + (((ref.NULL_INWIT,) * len(t[1]), ((b'q', b''),) * len(t[2])),)


STRUCT = {'append-input': (_grow, _growm), 'append-output': (_growout, _growoutm),
          'replace-wit': (_newwit, _newwitm)}
CONV = ('to_mutable', 'to_immutable', 'clone', 'reparse')
CREATE = ('I-from-I', 'I-from-M', 'M-from-I', 'M-from-M', 'I-parsed', 'M-parsed')


def tx_ops(tier, nslots, last):
    for s in range(nslots):
        for c in CONV:
            yield ('conv', s, c)
        for m in list(MUT) + list(STRUCT):
            yield ('mut', s, m)


def cases(tier):
    for base in BASES:
        for c in CREATE:
            yield ('tx', base, c, ())
            for a in tx_ops(tier, 1, False):
                yield ('tx', base, c, (a,))
                if tier == 'quick' and a[0] == 'mut' and a[2] not in (
                        'vin0.prevout.n', 'vout0.nValue', 'inwit0.scriptWitness',
                        'append-input', 'nLockTime', 'replace-wit'):
                    continue
                n = 2 if a[0] == 'conv' else 1
                for b in tx_ops(tier, n, True):
                    yield ('tx', base, c, (a, b))
                    deep = a[0] == 'conv' and (tier == 'thorough' or (
                        b[0] == 'conv' and base == 'full' and c[0] != 'I'))
                    if deep:
                        m = n + (b[0] == 'conv')
                        for d in tx_ops(tier, m, True):
                            yield ('tx', base, c, (a, b, d))
    for kind in PART:
        for c in ('I', 'M'):
            for conv1 in (None,) + CONV:
                for conv2 in (None,) + CONV:
                    for s in range(3):
                        for m in PART[kind]:
                            yield ('part', kind, c, (conv1, conv2, s, m))
    for k in ('tx', 'txin', 'txout', 'inwit', 'outwit', 'wit', 'outpoint'):
        yield ('defaults', k, '', ())
    for w in range(len(WITS)):
        for c in ('I', 'M'):
            for conv1 in WCONV:
                for conv2 in (None,) + WCONV:
                    for s in range(3):
                        for m in WMUT:
                            yield ('wit', w, c, (conv1, conv2, s, m))
    yield ('args', '', '', ())
    yield ('frozen', '', '', ())


FULLIN, FULLOUT = ((b'w', b'x'), b'ir', b'kr', (b'pw',)), (b'sp', b'rp')
WITS = [((), ()), ((ref.NULL_INWIT,), ()), ((), (ref.NULL_OUTWIT,)), ((ref.NULL_INWIT,), (ref.NULL_OUTWIT,)),
        ((FULLIN,), (FULLOUT,)), ((ref.NULL_INWIT, FULLIN), (FULLOUT, ref.NULL_OUTWIT)),
        ((FULLIN, FULLIN), ()), ((), (FULLOUT,))]
WCONV = ('to_mutable', 'to_immutable', 'clone', 'fromI', 'fromM', 'ctorI', 'ctorM')
# name -> (action, the same on the model)
WMUT = {
    'append-in': (lambda o: o.vtxinwit.append(bind.inwit(FULLIN, True)), lambda v: (v[0] + (FULLIN,), v[1])),
    'append-out': (lambda o: o.vtxoutwit.append(bind.outwit(FULLOUT, True)), lambda v: (v[0], v[1] + (FULLOUT,))),
    'clear': (lambda o: (o.vtxinwit.clear(), o.vtxoutwit.clear()), lambda v: ((), ())),
    'in0': (_set('vtxinwit', 0, 'inflationKeysRangeproof'), lambda v: (sub(v[0], (0, 2), b'new'), v[1])),
    'out0': (_set('vtxoutwit', 0, 'rangeproof'), lambda v: (v[0], sub(v[1], (0, 1), b'new'))),
    'replace': (lambda o: setattr(o, 'vtxinwit', [bind.inwit(FULLIN, True)]), lambda v: ((FULLIN,), v[1])),
}


def all_nodes(t):
    yield t.wit
    for i in t.vin:
        yield i
        yield i.prevout
    for o in t.vout:
        yield o
    for w in t.wit.vtxinwit:
        yield w
    for w in t.wit.vtxoutwit:
        yield w


def observe_tx(o, mut, value, what):
    same(o.is_mutable(), mut, what + ': is_mutable')
    for n in all_nodes(o):
        same(n.is_mutable(), mut, '%s: is_mutable of its %s' % (what, type(n).__name__))
    if not mut:
        for c in (o.vin, o.vout, o.wit.vtxinwit, o.wit.vtxoutwit):
            require(type(c) is tuple, '%s: container is %s', what, type(c).__name__)
    same(bind.un_tx_norm(o), ref.norm_wit(value), what + ': value')
    wire = ref.enc_tx(value)
    same(o.serialize(), wire, what + ': serialize')
    same(bytes(o.GetHash()), ref.dsha(wire), what + ': GetHash')
    same(bytes(o.GetTxid()), ref.txid(value), what + ': GetTxid')
    hash(o)


def padded(t, mut):
    """A mutable transaction gets as many witness entries as it has inputs and
    outputs if the given witness is empty"""
    if mut and ref.wit_null(t):
        return t[:4] + (((ref.NULL_INWIT,) * len(t[1]), (ref.NULL_OUTWIT,) * len(t[2])),)
    return t


def convert(o, cls_of, mut, how):
    if how == 'to_mutable':
        return o.to_mutable(), True
    if how == 'to_immutable':
        return o.to_immutable(), False
    if how == 'clone':
        return o.clone(), mut
    if how == 'reparse':
        return type(o).deserialize(o.serialize()), mut
    raise AssertionError(how)


def run_tx(case, rec):
    _, base, create, ops = case
    value = BASES[base]
    heap = []       # (object, mutable, model value)
    src = None
    mut = create[0] == 'M'
    if create.endswith('parsed'):
        o = bind.CLS[mut]['tx'].deserialize(ref.enc_tx(value))
        value = ref.norm_wit(value)
    else:
        pm = create[-1] == 'M'
        vin = [bind.txin(i, pm) for i in value[1]]
        vout = [bind.txout(i, pm) for i in value[2]]
        w = bind.wit(value[4], pm)
        src = (vin, vout, w)
        o = bind.CLS[mut]['tx'](vin, vout, value[3], value[0], w)
    heap.append((o, mut, padded(value, mut)))
    rec.state(('tx', create, base))

    def observe_all(after):
        for k, (o, m, v) in enumerate(heap):
            observe_tx(o, m, v, 'object %d after %s' % (k, after))
        for i, (a, _, va) in enumerate(heap):
            for b, _, vb in heap[i + 1:]:
                same(a == b, ref.enc_tx(va) == ref.enc_tx(vb), 'equality after %s' % (after,))
        if src is not None:
            v = BASES[base]
            same(tuple(bind.un_txin(i) for i in src[0]), v[1], 'constructor argument vin')
            same(tuple(bind.un_txout(i) for i in src[1]), v[2], 'constructor argument vout')
            same(bind.un_wit(src[2]), v[4], 'constructor argument witness')
    observe_all('construction')
    for op in ops:
        what, slot, name = op
        o, m, v = heap[slot]
        if what == 'conv':
            n, nm = convert(o, None, m, name)
            nv = ref.norm_wit(v) if name == 'reparse' else v
            heap.append((n, nm, padded(nv, nm)))
        else:
            try:
                nv = MUT[name] and sub(v, MUT[name][1], MUT[name][2]) if name in MUT \
                    else STRUCT[name][1](v)
            except IndexError:
                continue      # field does not exist in this transaction
            fn = MUT[name][0] if name in MUT else STRUCT[name][0]
            def do():
                if name in ('nVersion', 'nLockTime'):
                    fn(o, MUT[name][2])
                else:
                    fn(o)
            if m:
                do()
                heap[slot] = (o, m, nv)
            else:
                try:
                    do()
                except (AttributeError, TypeError):
                    pass
                else:
                    raise Violation('immutable transaction: %s did not fail' % name)
        rec.step()
        rec.state(tuple((m, v) for _, m, v in heap))
        observe_all(op)
    rec.trace()


UN = {'outpoint': lambda o: (bytes(o.hash), o.n), 'txin': bind.un_txin,
      'txout': bind.un_txout, 'inwit': bind.un_inwit, 'outwit': bind.un_outwit}
MK = {'outpoint': lambda v, m: bind.outpoint(v[0], v[1], m), 'txin': bind.txin,
      'txout': bind.txout, 'inwit': bind.inwit, 'outwit': bind.outwit}
ENC = {'outpoint': lambda v: ref.enc_outpoint(*v), 'txin': ref.enc_txin,
       'txout': ref.enc_txout, 'inwit': ref.enc_inwit, 'outwit': ref.enc_outwit}
VAL = {'outpoint': (txspace.H[0], 5), 'txin': BASE[1][0], 'txout': BASE[2][0],
       'inwit': BASE[4][0][0], 'outwit': BASE[4][1][0]}


def run_part(case, rec):
    _, kind, c, (conv1, conv2, slot, m) = case
    v0 = VAL[kind]
    heap = [[MK[kind](v0, c == 'M'), c == 'M', v0]]

    def obs(after):
        for k, (o, mut, v) in enumerate(heap):
            w = '%s %d after %s' % (kind, k, after)
            same(o.is_mutable(), mut, w + ': is_mutable')
            if kind == 'txin':
                same(o.prevout.is_mutable(), mut, w + ': prevout.is_mutable')
            same(UN[kind](o), v, w)
            same(o.serialize(), ENC[kind](v), w + ': serialize')
            same(bytes(o.GetHash()), ref.dsha(ENC[kind](v)), w + ': GetHash')
            hash(o)
    obs('construction')
    for how in (conv1, conv2):
        if how:
            o, mut, v = heap[-1]
            n, nm = convert(o, None, mut, how)
            heap.append([n, nm, v])
            obs(how)
            rec.step()
    if slot >= len(heap):
        return
    attrs, lv, mp, mv = PART[kind][m]
    o, mut, v = heap[slot]
    if mut:
        _set(*attrs)(o, lv)
        heap[slot][2] = sub(v, mp, mv)
    else:
        for action in (lambda: _set(*attrs)(o, lv), lambda: delattr(o, attrs[0])):
            try:
                action()
            except (AttributeError, TypeError):
                pass
            else:
                raise Violation('immutable %s: writing %s did not fail' % (kind, m))
    obs('%s of %d' % (m, slot))
    rec.step()
    rec.state((kind, tuple((x[1], x[2]) for x in heap)))
    rec.trace()


def run_wit(case, rec):
    _, w, c, (conv1, conv2, slot, m) = case
    v0 = WITS[w]
    heap = [[bind.wit(v0, c == 'M'), c == 'M', v0]]

    def obs(after):
        for k, (o, mut, v) in enumerate(heap):
            what = 'witness %d after %s' % (k, after)
            for n in (o, *o.vtxinwit, *o.vtxoutwit):
                same(n.is_mutable(), mut, what + ': is_mutable of a ' + type(n).__name__)
            same((type(o.vtxinwit), type(o.vtxoutwit)), (list, list) if mut else (tuple, tuple), what)
            same(bind.un_wit(o), v, what)
            same(o.is_null(), all(x == ref.NULL_INWIT for x in v[0]) and all(x == ref.NULL_OUTWIT for x in v[1]),
                 what + ': is_null')
            hash(o)
    obs('construction')
    for how in (conv1, conv2):
        if how:
            o, mut, v = heap[-1]
            if how[:4] in ('from', 'ctor'):
                cls = bind.CLS[how[4] == 'M']['wit']
                n, nm = cls.from_witness(o) if how[0] == 'f' else cls(o.vtxinwit, o.vtxoutwit), how[4] == 'M'
            else:
                n, nm = convert(o, None, mut, how)
            heap.append([n, nm, v])
            obs(how)
            rec.step()
    if slot >= len(heap):
        return
    o, mut, v = heap[slot]
    act, model = WMUT[m]
    do = (lambda: act(o, b'new')) if m in ('in0', 'out0') else (lambda: act(o))
    try:
        nv = model(v)
    except IndexError:
        return
    if mut:
        do()
        heap[slot][2] = nv
    else:
        try:
            do()
        except (AttributeError, TypeError):
            pass
        else:
            raise Violation('immutable witness: %s did not fail' % m)
    obs('%s of %d' % (m, slot))
    rec.step()
    rec.state(('wit', tuple((x[1], x[2]) for x in heap)))
    rec.trace()


def run_defaults(kind, rec):
    """Objects built with default arguments do not share anything"""
    cls = bind.CLS[True][kind]
    mk = (lambda: cls(b'\1' * 32, 0)) if kind == 'outpoint' else cls
    a, b = mk(), mk()
    before = b.serialize()
    if kind == 'tx':
        for _, fn in [(n, STRUCT[n][0]) for n in STRUCT]:
            fn(a)
        for n, (fn, path, v) in MUT.items():
            fn(a, v) if n in ('nVersion', 'nLockTime') else fn(a)
            rec.step()
    elif kind == 'wit':
        a.vtxinwit.append(bind.inwit(VAL['inwit'], True))
        a.vtxoutwit.append(bind.outwit(VAL['outwit'], True))
    else:
        for n, (attrs, lv, mp, mv) in PART[kind].items():
            _set(*attrs)(a, lv)
            rec.step()
    rec.state(('defaults', kind))
    rec.trace()
    same(b.serialize(), before, 'other %s built with default arguments' % kind)
    same(mk().serialize(), before, 'new %s built with default arguments' % kind)
    require(a.serialize() != before, 'mutation of %s has no effect', kind)


def run_args(rec):
    """bytearray / list arguments are copied"""
    for mut in (False, True):
        ba = [bytearray(b'12345') for _ in range(4)]
        iw = bind.CLS[mut]['inwit'](SW((b'a',)), ba[0], ba[1])
        ow = bind.CLS[mut]['outwit'](ba[2], ba[3])
        want = (iw.serialize(), ow.serialize())
        for x in ba:
            x[0] = 0xff
        same((iw.serialize(), ow.serialize()), want, 'witness built from bytearray')
        vin = [bind.txin(i, mut) for i in BASE[1]]
        vout = [bind.txout(i, mut) for i in BASE[2]]
        iws = [bind.inwit(i, mut) for i in BASE[4][0]]
        ows = [bind.outwit(i, mut) for i in BASE[4][1]]
        w = bind.CLS[mut]['wit'](iws, ows)
        t = bind.CLS[mut]['tx'](vin, vout, 5, 1, w)
        want = t.serialize()
        for lst in (vin, vout, iws, ows):
            lst.clear()
        same(t.serialize(), want, 'transaction after clearing the argument lists')
        rec.step(4)
        rec.state(('args', mut))
        rec.trace()


    # commitments and the values made of them
    for cls in (CConfidentialAsset, CConfidentialValue, CConfidentialNonce):
        for data in (b'', b'\1' * cls._explicitSize, bytes([cls._prefixA]) + b'\5' * 32):
            ba = bytearray(data)
            c = cls(ba)
            ba += b'\xee'
            ba[0] = 0x77
            same(c.commitment, data, '%s built from a bytearray' % cls.__name__)
            same(c.serialize(), data or b'\0', '%s built from a bytearray' % cls.__name__)
            rec.step()
            rec.state(('args', cls.__name__, data))


def run_frozen(rec):
    """Every attribute of every immutable node refuses assignment/deletion and
    item assignment"""
    t = bind.tx(BASE, False)
    nodes = [('tx', t)] + [(type(n).__name__, n) for n in all_nodes(t)]
    nodes += [('issuance', t.vin[0].assetIssuance), ('value', t.vout[0].nValue),
              ('asset', t.vout[0].nAsset), ('nonce', t.vout[0].nNonce)]
    names = ('vin vout wit nLockTime nVersion prevout scriptSig nSequence assetIssuance '
             'is_pegin nValue nAsset nNonce scriptPubKey hash n vtxinwit vtxoutwit '
             'scriptWitness issuanceAmountRangeproof inflationKeysRangeproof pegin_witness '
             'surjectionproof rangeproof assetBlindingNonce assetEntropy nAmount '
             'nInflationKeys commitment').split()
    want = t.serialize()
    for name, n in nodes:
        for a in names:
            if hasattr(n, a):
                for act in (lambda: setattr(n, a, getattr(n, a)), lambda: delattr(n, a)):
                    rec.step()
                    try:
                        act()
                    except (AttributeError, TypeError):
                        continue
                    raise Violation('immutable %s: attribute %s can be written' % (name, a))
                rec.state(('frozen', name, a))
    for c in (t.vin, t.vout, t.wit.vtxinwit, t.wit.vtxoutwit):
        for act in (lambda: c.append(1), lambda: c.__setitem__(0, c[0]), lambda: c.pop()):
            try:
                act()
            except (AttributeError, TypeError):
                continue
            raise Violation('container of an immutable transaction can be changed')
    same(t.serialize(), want, 'immutable transaction')
    rec.trace()


def run(case, rec):
    if case[0] == 'tx':
        run_tx(case, rec)
    elif case[0] == 'part':
        run_part(case, rec)
    elif case[0] == 'wit':
        run_wit(case, rec)
    elif case[0] == 'defaults':
        run_defaults(case[1], rec)
    elif case[0] == 'args':
        run_args(rec)
    elif case[0] == 'frozen':
        run_frozen(rec)
