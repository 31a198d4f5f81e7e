"""C30 the command line examples: what is printed is what the transaction holds"""
import io
import itertools
import os
import re
import runpy
import shutil
import struct
import sys
import tempfile
from decimal import Decimal as D
from .. import ref, shim, addrspace, world
from ..world import Elements, Refused, rx, COIN
from . import c10
from ..engine import require, same, Violation

PROPERTY = 'C30'
CHUNK = 4
REPO = os.environ.get('VERIF_REPO', '/repo')
ASSUMPTIONS = ['which transactions are valid is decided by the chain model of mc/world.py'] + c10.ASSUMPTIONS
L, A2 = ref.sha256(b'policy asset'), ref.sha256(b'another asset')
KEY, BKEY, OTHER, DKEY, DBLIND = (ref.sha256(b'c30 ' + x) for x in (b'k', b'b', b'o', b'd', b'db'))


def pub(k):
    return ref.pub_ser(ref.ec_mul(int.from_bytes(k, 'big'), ref.G))


def h160(b):
    return ref.ripemd160(ref.sha256(b))


OURS = addrspace.spk('P2SH', h160(b'\0\x14' + h160(pub(KEY))))
FEE = 1000
# kind -> (asset, amount, script, blinding key of the receiver or None)
KINDS = {
    'M': (L, 5 * COIN, OURS, BKEY), 'm': (L, 6 * COIN, OURS, None), 'X': (L, 7 * COIN, OURS, OTHER),
    'Z': (L, 2 * FEE - 1, OURS, BKEY), 'z': (L, 2 * FEE, OURS, None), 'A': (A2, 8 * COIN, OURS, BKEY),
    'a': (A2, 9 * COIN, OURS, None), 'W': (L, 21 * 10**14, OURS, BKEY),
    'N': (L, 3 * COIN, addrspace.spk('P2WPKH', h160(pub(OTHER))), OTHER),
    'n': (L, 4 * COIN + 1, addrspace.spk('P2PKH', h160(pub(OTHER))), None),
    'B': (L, COIN, addrspace.spk('P2WSH', ref.sha256(b'x')), BKEY),
    'T': (L, 1, addrspace.spk('P2TR', pub(OTHER)[1:]), BKEY),
    'R': (L, 0, b'\x6a', OTHER), 'r': (L, 0, b'\x6a', BKEY), 'e': (A2, 12, b'\x6a\x01x', None),
    'F': (L, FEE, b'', None), 'G': (A2, 700, b'', None),
    'q': (L, 33, b'\x21' + pub(OTHER) + b'\xac', None),
}
NETS = (None, 'elements', 'elements/liquidv1')


def funding(kinds):
    """(transaction, its chain, secrets of its outputs)"""
    ch = Elements('elements')
    outs = [KINDS[k] for k in kinds]
    vout, wits, secrets = [], [], []
    for k, (asset, amount, spk, key) in enumerate(outs):
        if key is None:
            vout.append((b'\1' + asset, b'\1' + struct.pack('>q', amount), b'', spk))
            wits.append(ref.NULL_OUTWIT)
            secrets.append((asset, amount, ref.Z32, ref.Z32))
            continue
        abf, vbf, eph = (ref.sha256(b'c30 %d ' % k + x) for x in (b'a', b'v', b'e'))
        raw = shim.raw_gen(asset, abf)
        com = shim.commit(vbf, amount, raw)
        rp = shim.sign(1 if amount else 0, com, vbf, ref.blinding_nonce(eph, pub(key)), 0, 36, amount,
                       asset + abf, spk, raw)
        assert rp
        vout.append((shim.ser_gen(raw), com, pub(eph), spk))
        wits.append((b'\0', rp))
        secrets.append((asset, amount, vbf, abf))
    wit = ((ref.NULL_INWIT,), tuple(wits)) if any(w[1] for w in wits) else ref.NO_WIT
    t = (2, ((ref.sha256(b'c30'), 0, b'', 0xfffffffe, ref.NULL_ISSUANCE, False),), tuple(vout), 0, wit)
    ch.add(rx(ref.txid(t)), ref.enc_tx(t), [(rx(ref.sha256(b'c30')), 0)], vout)
    ch.mine()
    return t, ch, secrets


def execute(script, files, args, net):
    """(exit status, standard output) of the example"""
    def go():
        tmp = tempfile.mkdtemp(prefix='mcc30')
        try:
            argv = [script]
            for k, text in enumerate(files):
                argv.append('%s/%d' % (tmp, k))
                with open(argv[-1], 'w') as f:
                    f.write(text + '\n')
            sys.argv = argv + list(args) + ([net] if net else [])
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            code = 0
            try:
                runpy.run_path(REPO + '/examples/' + script, run_name='__main__')
            except SystemExit as e:
                code = e.code or 0
            except Exception as e:
                code = repr(e)
            return code, sys.stdout.getvalue()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return world.isolated(go)


def wif(k, net):
    return ref.b58check_enc(b'\xef' + k + b'\1')


# --------------------------------------------------------------------- spend

def dst(kind, conf, net):
    n = 'elements' if net in (None, 'bitcoin') else net
    prog = {'P2PKH': h160(pub(DKEY)), 'P2WPKH': h160(pub(DKEY)), 'P2SH': h160(b'\0\x14' + h160(pub(DKEY))),
            'P2WSH': ref.sha256(b'd'), 'P2TR': pub(DKEY)[1:]}[kind]
    return addrspace.encode(n, kind, pub(DBLIND) if conf else None, prog), addrspace.spk(kind, prog)


def spend(kinds, kind, conf, net, rec):
    t, ch, secrets = funding(kinds)
    if kind == 'junk':
        addr, spk = 'zz', None
    elif kind == 'foreign':
        addr, spk = dst('P2WPKH', conf, 'elements' if net == 'elements/liquidv1' else 'elements/liquidv1')[0], None
    else:
        addr, spk = dst(kind, conf, net)
    code, out = execute('spend-to-confidential-address.py',
                        [ref.enc_tx(t).hex(), wif(KEY, net), BKEY.hex()], [addr], net)
    ours = [k for k, o in enumerate(t[2]) if o[3] == OURS]
    fees = [KINDS[k] for k in kinds if k in 'FG']
    ok = (ours and len(fees) == 1 and spk is not None and net != 'bitcoin'
          and secrets[ours[0]][0] == fees[0][0] and kinds[ours[0]] != 'X'
          and secrets[ours[0]][1] >= 2 * fees[0][1])
    if not ok:
        rec.count('refused')
        require(code != 0, 'an impossible spend is not refused, but prints %s', out)
        require(out.strip() == '' or net == 'bitcoin', 'a refused spend prints %s', out)
        return
    rec.count('spent')
    require(code == 0, 'the spend fails: %s', code)
    raw = bytes.fromhex(out.strip())
    n = ours[0]
    asset, amount, vbf, abf = secrets[n]
    s = ref.dec_tx(raw)
    same([(i[0], i[1]) for i in s[1]], [(ref.txid(t), n)], 'spent outputs')
    try:
        ch.accept(raw)
    except Refused as e:
        raise Violation('the transaction is not valid: %s' % e)
    fee = [o for o in s[2] if o[3] == b'']
    same([(o[0], o[1]) for o in fee], [(b'\1' + asset, b'\1' + struct.pack('>q', fees[0][1]))], 'fee')
    paid = [(k, o) for k, o in enumerate(s[2]) if o[3] == spk]
    same(len(paid), 1, 'number of outputs to the destination')
    k, o = paid[0]
    if not conf:
        same((o[0], o[1]), (b'\1' + asset, b'\1' + struct.pack('>q', amount - fees[0][1])), 'destination')
    else:
        require(o[0][0] != 1 and o[1][0] != 1, 'the output to a confidential address is not blinded')
        r = shim.rewind(ref.outwit(s, k)[1], o[1], ref.blinding_nonce(DBLIND, o[2]), o[3], shim.parse_gen(o[0]))
        require(r is not None, 'the receiver cannot unblind the output')
        same((r[0], r[2][:32]), (amount - fees[0][1], asset), 'what the receiver finds')
    for o in s[2]:
        if o[3] not in (b'', spk):
            require(o[3][:1] == b'\x6a', 'an output pays to somebody else: %s', o[3].hex())


# ------------------------------------------------------------------- unblind

def field(text, name):
    m = re.search(r'^\s*%s:\s*(.*?)\s*$' % re.escape(name), text, re.M)
    return m and m.group(1)


def address(spk, net, key=None):
    for kind in addrspace.KINDS:
        n = addrspace.SIZE[kind]
        for i in range(len(spk) - n + 1):
            if addrspace.spk(kind, spk[i:i + n]) == spk:
                return addrspace.encode(net or 'elements', kind, key and pub(key), spk[i:i + n])
    return None


def unblind(kinds, net, rec):
    t, ch, secrets = funding(kinds)
    code, out = execute('unblind.py', [ref.enc_tx(t).hex(), BKEY.hex()], [], net)
    if net == 'bitcoin':
        require(code != 0, 'accepted for a network without blinding')
        return
    require(code == 0, 'fails with %s', code)
    parts = re.split(r'^vout (\d+): ', out, flags=re.M)
    same([int(x) for x in parts[1::2]], list(range(len(kinds))), 'outputs that are shown')
    for k, text in zip(kinds, parts[2::2]):
        asset, amount, spk, key = KINDS[k]
        n = kinds.index(k)
        head = text.split('\n')[0]
        a = address(spk, net)
        if key is None or key == BKEY:
            require(head.startswith('fee' if spk == b'' else 'explicit' if key is None else 'unblinded'),
                    'output %s is called %s', k, head)
            require(field(text, 'amount') is not None and D(field(text, 'amount')) * COIN == amount,
                    'amount of %s is shown as %s', k, field(text, 'amount'))
            require(rx(asset) in (field(text, 'asset') or ''), 'asset of %s is shown as %s', k, field(text, 'asset'))
        else:
            require(head.startswith('cannot unblind'), 'output %s is called %s', k, head)
            require(rx(asset) not in text and field(text, 'amount') is None, 'shows what it cannot know')
        if key == BKEY:
            _, _, vbf, abf = secrets[n]
            require(rx(vbf) in (field(text, 'blinding_factor') or '')
                    and rx(abf) in (field(text, 'asset_blinding_factor') or ''), 'factors of %s', k)
            if a is not None:
                same(field(text, 'unconfidential'), a, 'address')
                same(field(text, 'confidential'), address(spk, net, BKEY), 'confidential address')
        elif a is not None:
            same(field(text, 'destination address'), a, 'address of output %s' % k)
        if key == OTHER:
            low, high = field(text, 'value-minimum'), field(text, 'value-maximum')
            if low is not None:
                require(D(low) * COIN <= amount <= D(high) * COIN, 'the range does not contain the amount')
        rec.count('shown ' + head.split(':')[0])


# --------------------------------------------------------------------- space

def cases(tier):
    top = 3 if tier == 'quick' else 4
    alpha = 'MmXAaNF' if tier == 'quick' else 'MmXZAaNRFG'
    for net in NETS + ('bitcoin',):
        for kind in addrspace.KINDS + ('junk', 'foreign'):
            for conf in (True, False):
                for kinds in ('MF', 'mF', 'ZF', 'zF', 'FM', 'nM' + 'F', 'WF', 'aG', 'AG', 'M', 'F', 'XF', 'MX' + 'F',
                              'AF', 'aF', 'MFG', 'NmF', 'RmF', 'FRM'):
                    yield ('spend', kinds, kind, conf, net)
    for n in range(1, top + 1):
        for kinds in itertools.product(alpha, repeat=n):
            if len(set(kinds)) == n and 'F' in kinds:
                for kind, conf in (('P2WPKH', True), ('P2SH', False)):
                    yield ('spend', ''.join(kinds), kind, conf, None)
    for net in NETS + ('bitcoin',):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            for kinds in itertools.combinations(KINDS, n):
                yield ('unblind', ''.join(kinds), net)
        yield ('unblind', ''.join(KINDS), net)


def bound(tier):
    return ('spending from transactions of all sequences of up to %d outputs of %d kinds, and of 19 fixed ones to '
            'addresses of all kinds and networks; unblinding of all sets of up to %d outputs of %d kinds in 3 '
            'networks' % ((3, 7, 2, len(KINDS)) if tier == 'quick' else (4, 10, 3, len(KINDS))))


def prepare(tier):
    shim.install()


def known(case, msg):
    """which of the findings of known_findings.txt the case and the way it fails are, if any"""
    what, kinds = case[:2]
    if what == 'unblind':
        no_address = any(address(KINDS[k][2], None) is None and k != 'F' and k != 'G' for k in kinds)
        return 'unblind-no-address' if no_address and msg.startswith('fails with') else None
    kind, conf, net = case[2:]
    ours = [k for k in kinds if KINDS[k][2] == OURS]
    fees = [k for k in kinds if k in 'FG']
    if not ours or len(fees) != 1:
        return None
    if msg.startswith('the spend fails: CCoinAddressError') and net == 'elements/liquidv1' or (
            msg.startswith('an impossible spend') and net == 'elements/liquidv1' and kind == 'foreign'):
        return 'spend-chainparams'
    if msg.startswith('an impossible spend') and KINDS[ours[0]][0] != KINDS[fees[0]][0]:
        return 'spend-fee-asset'
    if msg.startswith('the spend fails') and KINDS[ours[0]][3] is None and conf:
        return 'spend-unblinded-to-confidential'
    return None


def run(case, rec):
    shim.install()
    rec.step()
    rec.trace()
    rec.state(case)
    try:
        if case[0] == 'spend':
            spend(*case[1:], rec)
        else:
            unblind(*case[1:], rec)
    except Violation as e:
        key = known(case, str(e))
        if key is None:
            raise
        rec.finding(key, str(e))
