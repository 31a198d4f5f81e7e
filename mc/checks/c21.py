"""C21 network parameters and opcodes are the ones of Elements Core"""
import elementstx
from bitcointx import ChainParams, get_current_chain_params
from bitcointx.core import CoreCoinParams, Uint256
from bitcointx.wallet import CCoinKey, CCoinExtKey, CCoinExtPubKey
from elementstx.core import CAsset
from elementstx.core import script as es
from elementstx.core.script import CElementsScript
import elementstx.wallet as ew
from bitcointx.core.script import CScriptOp
from .. import ref
from .. import addrspace as a
from ..engine import same, require, raises

PROPERTY = 'C21'
JOBS = 4
SECRETS = [b'\0' * 31 + b'\1', b'\x11' * 32, (ref.N - 1).to_bytes(32, 'big')]
WIF = {'elements': 239, 'elements/liquidv1': 128}
EXT = {'elements': (0x043587CF, 0x04358394), 'elements/liquidv1': (0x0488B21E, 0x0488ADE4)}
NAMES = {'elements': 'elements', 'elements/elementsregtest': 'elements',
         'elements/liquidv1': 'elements/liquidv1'}
RPC = {'elements': 7041, 'elements/liquidv1': 7042}
DATADIR = {'elements': 'elementsregtest', 'elements/liquidv1': 'liquidv1'}
OPS = """DETERMINISTICRANDOM CHECKSIGFROMSTACK CHECKSIGFROMSTACKVERIFY SUBSTR_LAZY SHA256INITIALIZE
SHA256UPDATE SHA256FINALIZE INSPECTINPUTOUTPOINT INSPECTINPUTASSET INSPECTINPUTVALUE
INSPECTINPUTSCRIPTPUBKEY INSPECTINPUTSEQUENCE INSPECTINPUTISSUANCE PUSHCURRENTINPUTINDEX
INSPECTOUTPUTASSET INSPECTOUTPUTVALUE INSPECTOUTPUTNONCE INSPECTOUTPUTSCRIPTPUBKEY INSPECTVERSION
INSPECTLOCKTIME INSPECTNUMINPUTS INSPECTNUMOUTPUTS TXWEIGHT ADD64 SUB64 MUL64 DIV64 NEG64 LESSTHAN64
LESSTHANOREQUAL64 GREATERTHAN64 GREATERTHANOREQUAL64 SCRIPTNUMTOLE64 LE64TOSCRIPTNUM LE32TOLE64
ECMULSCALARVERIFY TWEAKVERIFY""".split()


def bound(tier):
    return ('3 network names x all address kinds, key formats, ports and directory names x %d '
            'secrets; all %d opcodes in every position of scripts up to 3 opcodes' % (3, len(OPS)))


def cases(tier):
    for name in NAMES:
        yield ('net', name)
        yield ('core', name)
    for i in range(len(OPS)):
        yield ('op', i)
    yield ('names',)


def wif(net, secret, compressed):
    return ref.b58check_enc(bytes([WIF[net]]) + secret + (b'\1' if compressed else b''))


def run(case, rec):
    op = case[0]
    if op == 'net':
        name = case[1]
        net = NAMES[name]
        with ChainParams(name) as p:
            require(get_current_chain_params() is p, 'current params')
            same(p.NAME, net, 'NAME')
            same(p.RPC_PORT, RPC[net], 'RPC port')
            same(p.get_network_id(), DATADIR[net], 'network id')
            same(p.get_datadir_extra_name(), DATADIR[net], 'data directory')
            require(type(p) is (elementstx.ElementsParams if net == 'elements'
                                else elementstx.ElementsLiquidV1Params), 'class of params')
            for kind in a.KINDS:
                for conf in (False, True):
                    cls = a.concrete(net, kind, conf)
                    h = a.hashes(kind)[2]
                    pub = a.PUBS[1] if conf else None
                    same(str(cls.from_bytes((pub or b'') + h)), a.encode(net, kind, pub, h),
                         'address of kind %s' % kind)
                    rec.step()
                    rec.trace()
                    rec.state((net, kind, conf))
            kcls = {'elements': ew.CElementsKey,
                    'elements/liquidv1': ew.CElementsLiquidV1Key}[net]
            xprv, xpub = {'elements': (ew.CElementsExtKey, ew.CElementsExtPubKey),
                          'elements/liquidv1': (ew.CElementsLiquidV1ExtKey,
                                                ew.CElementsLiquidV1ExtPubKey)}[net]
            for s in SECRETS:
                for compressed in (True, False):
                    k = kcls.from_secret_bytes(s, compressed=compressed)
                    same(type(CCoinKey.from_secret_bytes(s, compressed=compressed)), kcls, 'key class')
                    got, want = str(k), wif(net, s, compressed)
                    rec.state(want)
                    rec.step()
                    rec.trace()
                    if got != want:
                        if net == 'elements/liquidv1' and \
                                got == ref.b58check_enc(b'\xef' + ref.b58check_dec(want)[1:]):
                            rec.finding('liquidv1-wif-prefix',
                                        'liquidv1 private key %s is encoded as %s, Elements Core '
                                        'gives %s' % (s.hex(), got, want))
                        else:
                            same(got, want, 'WIF')
                    back = CCoinKey(got)
                    same((type(back), back.secret_bytes, back.is_compressed()),
                         (kcls, s, compressed), 'WIF round trip')
                # extended keys
                seed = s
                x = xprv.from_seed(seed)
                same(type(CCoinExtKey.from_seed(seed)), xprv, 'ext key class')
                raw = ref.b58check_dec(str(x))
                same(raw[:4], EXT[net][1].to_bytes(4, 'big'), 'ext key version')
                same(raw[4:], bytes(x), 'ext key payload')
                y = x.neuter()
                same(type(y), xpub, 'ext pubkey class')
                raw = ref.b58check_dec(str(y))
                same(raw[:4], EXT[net][0].to_bytes(4, 'big'), 'ext pubkey version')
                same(raw[4:], bytes(y), 'ext pubkey payload')
                same(type(CCoinExtKey(str(x))), xprv, 'ext key')
                same(type(CCoinExtPubKey(str(y))), xpub, 'ext pubkey')
                rec.step(2)
                rec.trace(2)
                # keys of other networks are refused
                other = [n for n in a.NETS if n != net][0]
                fake = EXT[other][1].to_bytes(4, 'big') + bytes(x)
                raises('ext key of another network', CCoinExtKey, ref.b58check_enc(fake))
                for v in range(256):
                    if v not in (239, WIF[net]):
                        raises('WIF version %d' % v, CCoinKey,
                               ref.b58check_enc(bytes([v]) + s + b'\1'))
    elif op == 'core':
        with ChainParams(case[1]):
            # what consensus-level rules a user gets through the generic names
            same(int(CoreCoinParams.TAPROOT_LEAF_TAPSCRIPT), 0xc4, 'tapscript leaf version')
            same(CoreCoinParams.CT_EXPONENT, 0, 'CT exponent')
            same(CoreCoinParams.CT_BITS, 52, 'CT bits')
            rec.step(3)
            rec.trace()
            rec.state(case)
            # asset ids are written in reverse byte order
            for h in (b'\0' * 32, bytes(range(32)), b'\xff' * 31 + b'\0'):
                x = CAsset(h)
                same((x.to_hex(), bytes(x.data), str(x).count(h[::-1].hex()) > 0),
                     (h[::-1].hex(), h, True), 'asset')
                same(CAsset.from_hex(h[::-1].hex()) == x, True, 'asset from hex')
                rec.step()
            for n in list(range(0, 32)) + list(range(33, 40)):
                raises('asset of %d bytes' % n, CAsset, b'\1' * n)
    elif op == 'op':
        i = case[1]
        o = getattr(es, 'OP_' + OPS[i])
        same(int(o), 0xc0 + i, 'OP_' + OPS[i])
        require(isinstance(o, CScriptOp), 'OP_%s is not an opcode', OPS[i])
        b = bytes([0xc0 + i])
        for pre in ([], [b'ab'], [getattr(es, 'OP_' + OPS[i - 1])], [0, 17]):
            s = CElementsScript(pre + [o])
            same(bytes(s)[-1:], b, 'script')
            same(list(s)[-1], o, 'parsed back')
            same(list(CElementsScript(list(s) + [o, b'x']))[-2:], [o, b'x'], 'rebuilt')
            rec.step()
            rec.trace()
            rec.state(bytes(s))
    else:
        for bad in ('element', 'elements/', 'elements/regtest', 'liquidv1', 'elements/elements', ''):
            def enter():
                with ChainParams(bad) as p:
                    return p.NAME
            raises('params %r' % bad, enter, exc=(ValueError,))
            same(get_current_chain_params().NAME, 'bitcoin', 'params afterwards')
            rec.step()
        rec.trace()
        rec.state(case)
