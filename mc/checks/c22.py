"""C22 taproot script trees use Elements rules whatever network is active"""
import functools
from bitcointx import ChainParams
from bitcointx.core.key import CKey, XOnlyPubKey
from bitcointx.core.script import TaprootScriptTree, CScript
from elementstx.core.script import TaprootElementsScriptTree, CElementsScript
from elementstx.wallet import (P2TRElementsAddress, P2TRElementsLiquidV1Address,
                               P2TRElementsConfidentialAddress)
from .. import ref, bind, shspace, txspace
from ..engine import same, require, raises

PROPERTY = 'C22'
PARAMS = ('bitcoin', 'elements', 'elements/liquidv1')
SCRIPTS = [b'\x20' + bytes([i + 1]) * 32 + b'\xac' for i in range(8)]
# the length prefix of a leaf changes its size
SCRIPTS[3] = b'\x4c\xf9' + b'\x07' * 249 + b'\x75\x51'
SCRIPTS[5] = b''
KEYS = [b'\x01' * 32, b'\x02' * 32, b'\x07' * 31 + b'\x99']


@functools.lru_cache(None)
def trees(n):
    """All trees with n scripts: a tree is a tuple of leaves, a leaf is None
    (a script) or a tree; a single nested tree is not allowed"""
    out = []
    for parts in compositions(n):
        if len(parts) == 1 and n > 1:
            continue
        out += combine(parts)
    return out


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def combine(parts):
    if not parts:
        return [()]
    # a one-script subtree may be a bare script or a tree of its own
    heads = [None, (None,)] if parts[0] == 1 else trees(parts[0])
    return [(h,) + t for h in heads for t in combine(parts[1:])]


def ok(t):
    return not (len(t) == 1 and t[0] is not None)


def bound(tier):
    return ('all tree shapes with at most %d scripts (explicit nesting and implicit splitting) x '
            'leaf versions x %d internal keys x 3 active networks x class by name and '
            'class by dispatch' % (5 if tier == "quick" else 6, len(KEYS)))


VERSIONS = (None, 0xc4, 0xc0, 0xfe, 0x66)


def cases(tier):
    for n in range(1, 6 if tier == "quick" else 7):
        for t in trees(n):
            if ok(t):
                for v in VERSIONS if n < 3 else VERSIONS[:1]:
                    for p in PARAMS:
                        yield ('tree', t, v, p)
    for p in PARAMS:
        for i in range(40 if tier == 'quick' else 200):
            yield ('keys', i, p)


def build(t, names, cls, version, kw):
    """(library tree, model tree); model: (root, [(name, script, version, path)])"""
    leaves, mleaves = [], []
    v = 0xc4 if version is None else version
    for x in t:
        if x is None:
            i = len(names)
            names.append('s%d' % i)
            leaves.append(CElementsScript(SCRIPTS[i], name='s%d' % i))
            mleaves.append((ref.tapleaf(SCRIPTS[i], v), [('s%d' % i, SCRIPTS[i], v, b'')]))
        else:
            lt, mt = build(x, names, cls, None, {})
            leaves.append(lt)
            mleaves.append(mt)
    if version is not None and any(x is None for x in t):
        kw = dict(kw, leaf_version=version)
    return cls(leaves, **kw), split(mleaves)


def split(ml):
    if len(ml) == 1:
        return ml[0]
    k = len(ml) // 2
    (lh, lp), (rh, rp) = split(ml[:k]), split(ml[k:])
    return (ref.tapbranch(lh, rh), [(n, s, v, p + rh) for n, s, v, p in lp]
            + [(n, s, v, p + lh) for n, s, v, p in rp])


def run(case, rec):
    if case[0] == 'keys':
        return keys(case[1], case[2], rec)
    _, t, version, params = case
    with ChainParams(params):
        classes = [TaprootElementsScriptTree]
        if params != 'bitcoin':
            classes.append(TaprootScriptTree)
        for cls in classes:
            for how in ('ctor', 'set'):
                k = KEYS[len(str(t)) % 3]
                xo = CKey(k).xonly_pub
                names = []
                lt, (root, paths) = build(t, names, cls, version,
                                          {'internal_pubkey': xo} if how == 'ctor' else {})
                require(isinstance(lt, TaprootElementsScriptTree), 'tree is a %s',
                        type(lt).__name__)
                if how == 'set':
                    raises('control block without key', lt.get_script_with_control_block, 's0',
                           exc=(ValueError,))
                    lt.set_internal_pubkey(xo)
                same(bytes(lt.merkle_root), root, 'merkle root of %r' % (t,))
                out, parity = ref.taptweak(bytes(xo), root)
                same(bytes(lt.output_pubkey), out, 'output key')
                same(int(lt.parity), parity, 'parity')
                rec.state((root, k))
                for n, s, v, path in paths:
                    got, cb = lt.get_script_with_control_block(n)
                    same(bytes(got), s, 'script ' + n)
                    same(bytes(cb), bytes([v | parity]) + bytes(xo) + path, 'control block')
                    same(ref.control_block_root(s, cb), root, 'root proved by the control block')
                    same(bytes(lt.get_script_path(n)), path, 'path')
                    same(lt.get_script_leaf_version(n), v, 'leaf version')
                    rec.step()
                    rec.trace()
                same(lt.get_script_with_control_block('nope'), None, 'unknown name')
                # addresses
                for ac, hrp in ((P2TRElementsAddress, 'ert'), (P2TRElementsLiquidV1Address, 'ex')):
                    a = ac.from_script_tree(lt)
                    same(str(a), ref.BECH32.encode(hrp, 1, out), 'address of the tree')
                    same(bytes(a.to_scriptPubKey()), b'\x51\x20' + out, 'scriptPubKey')


def keys(i, params, rec):
    """Key path only: the tweak commits to an unspendable script path"""
    sk = ref.sha256(b'key%d' % i)
    with ChainParams(params):
        k = CKey(sk)
        x = bytes(k.xonly_pub)
        out, parity = ref.taptweak(x)
        for ac, hrp in ((P2TRElementsAddress, 'ert'), (P2TRElementsLiquidV1Address, 'ex')):
            want = ref.BECH32.encode(hrp, 1, out)
            same(str(ac.from_pubkey(k.pub)), want, 'from_pubkey')
            same(str(ac.from_xonly_pubkey(k.xonly_pub)), want, 'from_xonly_pubkey')
            same(str(ac.from_output_pubkey(k.pub)), ref.BECH32.encode(hrp, 1, x),
                 'from_output_pubkey')
            rec.step(3)
            rec.trace()
        t = TaprootElementsScriptTree([CElementsScript(SCRIPTS[i % 8], name='a')],
                                      internal_pubkey=k.xonly_pub)
        out, parity = ref.taptweak(x, ref.tapleaf(SCRIPTS[i % 8]))
        same((bytes(t.output_pubkey), int(t.parity)), (out, parity), 'output key of one leaf')
        # re-keying
        k2 = CKey(KEYS[0])
        t.set_internal_pubkey(k2.xonly_pub)
        out, parity = ref.taptweak(bytes(k2.xonly_pub), ref.tapleaf(SCRIPTS[i % 8]))
        same((bytes(t.output_pubkey), int(t.parity)), (out, parity), 'output key after re-keying')
        rec.state(out)
