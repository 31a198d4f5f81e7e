"""Reference models, written from the Elements / BIP specifications and kept
boring on purpose. Nothing in here imports the code under test.

Transaction model (nested tuples of ints and bytes):
  tx    = (version, vin, vout, locktime, wit)
  txin  = (prev_hash, prev_n, script_sig, sequence, issuance, is_pegin)
  issuance = (blinding_nonce32, entropy32, amount, inflation_keys)
  txout = (asset, value, nonce, script_pubkey)
  wit   = (inwits, outwits)
  inwit = (script_witness_stack, issuance_rangeproof, inflation_rangeproof,
           pegin_stack)
  outwit = (surjectionproof, rangeproof)
Confidential fields are the serialized bytes, b'' is null.
"""
import functools
import hashlib
import hmac as _hmac
import struct

Z32 = b'\0' * 32
NULL_ISSUANCE = (Z32, Z32, b'', b'')
NULL_INWIT = ((), b'', b'', ())
NULL_OUTWIT = (b'', b'')
NO_WIT = ((), ())

ISSUANCE_FLAG = 1 << 31
PEGIN_FLAG = 1 << 30
INDEX_MASK = 0x3fffffff


class Reject(Exception):
    pass


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def tagged(tag, msg):
    t = sha256(tag)
    return sha256(t + t + msg)


def ripemd160(b):
    return hashlib.new('ripemd160', b).digest()


def hmac_sha256(key, msg):
    if len(key) > 64:
        key = sha256(key)
    key = key + b'\0' * (64 - len(key))
    ik = bytes(x ^ 0x36 for x in key)
    ok = bytes(x ^ 0x5c for x in key)
    return sha256(ok + sha256(ik + msg))


# ---------------------------------------------------------------- encoding

def compact(n):
    if n < 253:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + struct.pack('<H', n)
    if n <= 0xffffffff:
        return b'\xfe' + struct.pack('<I', n)
    return b'\xff' + struct.pack('<Q', n)


def varbytes(b):
    return compact(len(b)) + b


def stack(items):
    return compact(len(items)) + b''.join(varbytes(i) for i in items)


def conf(c):
    return c if c else b'\0'


def issuance_null(iss):
    return iss[2] == b'' and iss[3] == b''


def enc_issuance(iss):
    return iss[0] + iss[1] + conf(iss[2]) + conf(iss[3])


def enc_outpoint(h, n):
    return h + struct.pack('<I', n)


def enc_txin(i, flags=True):
    h, n, sig, seq, iss, pegin = i
    out = b''
    has_iss = False
    wire_n = n
    if n != 0xffffffff:
        assert n & ~INDEX_MASK == 0
        has_iss = not issuance_null(iss)
        if flags:
            wire_n |= (ISSUANCE_FLAG if has_iss else 0) | (PEGIN_FLAG if pegin else 0)
    out = enc_outpoint(h, wire_n) + varbytes(sig) + struct.pack('<I', seq)
    if has_iss:
        out += enc_issuance(iss)
    return out


def enc_txout(o):
    return conf(o[0]) + conf(o[1]) + conf(o[2]) + varbytes(o[3])


def enc_inwit(w):
    return varbytes(w[1]) + varbytes(w[2]) + stack(w[0]) + stack(w[3])


def enc_outwit(w):
    return varbytes(w[0]) + varbytes(w[1])


def wit_null(tx):
    return (all(w == NULL_INWIT for w in tx[4][0])
            and all(w == NULL_OUTWIT for w in tx[4][1]))


def inwit(tx, i):
    return tx[4][0][i] if i < len(tx[4][0]) else NULL_INWIT


def outwit(tx, i):
    return tx[4][1][i] if i < len(tx[4][1]) else NULL_OUTWIT


def enc_tx(tx, witness=True):
    version, vin, vout, locktime, wit = tx
    with_wit = witness and not wit_null(tx)
    out = [struct.pack('<i', version), b'\x01' if with_wit else b'\x00',
           compact(len(vin))]
    out += [enc_txin(i) for i in vin]
    out.append(compact(len(vout)))
    out += [enc_txout(o) for o in vout]
    out.append(struct.pack('<I', locktime))
    if with_wit:
        out += [enc_inwit(inwit(tx, i)) for i in range(len(vin))]
        out += [enc_outwit(outwit(tx, i)) for i in range(len(vout))]
    return b''.join(out)


def norm_wit(tx):
    if wit_null(tx):
        return tx[:4] + (NO_WIT,)
    return tx[:4] + ((tuple(inwit(tx, i) for i in range(len(tx[1]))),
                      tuple(outwit(tx, i) for i in range(len(tx[2])))),)


def txid(tx):
    return dsha(enc_tx(tx, witness=False))


def wtxid(tx):
    return dsha(enc_tx(tx))


def vsize(tx):
    w = 3 * len(enc_tx(tx, witness=False)) + len(enc_tx(tx))
    return (w + 3) // 4


# ---------------------------------------------------------------- decoding

MAX_SIZE = 0x02000000


class Reader:
    def __init__(self, data):
        self.d = data
        self.p = 0

    def read(self, n):
        if n > MAX_SIZE or self.p + n > len(self.d):
            raise Reject('truncated')
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.read(1)[0]

    def fmt(self, f, n):
        return struct.unpack(f, self.read(n))[0]

    def compact(self):
        b = self.u8()
        if b < 0xfd:
            return b
        if b == 0xfd:
            n, low = self.fmt('<H', 2), 0xfd
        elif b == 0xfe:
            n, low = self.fmt('<I', 4), 0x10000
        else:
            n, low = self.fmt('<Q', 8), 0x100000000
        if n < low:
            raise Reject('non-canonical compact size')
        return n

    def varbytes(self):
        return self.read(self.compact())

    def stack(self):
        n = self.compact()
        if n > len(self.d):
            raise Reject('truncated')
        return tuple(self.varbytes() for _ in range(n))

    def conf(self, kind):
        v = self.u8()
        if v == 0:
            return b''
        size, a, b = {'asset': (32, 10, 11), 'value': (8, 8, 9),
                      'nonce': (32, 2, 3)}[kind]
        if v == 1:
            return b'\x01' + self.read(size)
        if v in (a, b):
            return bytes([v]) + self.read(32)
        raise Reject('bad prefix')

    def issuance(self):
        return (self.read(32), self.read(32), self.conf('value'), self.conf('value'))

    def txin(self):
        h = self.read(32)
        n = self.fmt('<I', 4)
        sig = self.varbytes()
        seq = self.fmt('<I', 4)
        iss, pegin = NULL_ISSUANCE, False
        if n != 0xffffffff:
            pegin = bool(n & PEGIN_FLAG)
            if n & ISSUANCE_FLAG:
                iss = self.issuance()
            n &= INDEX_MASK
        return (h, n, sig, seq, iss, pegin)

    def txout(self):
        a = self.conf('asset')
        v = self.conf('value')
        n = self.conf('nonce')
        return (a, v, n, self.varbytes())

    def inwit(self):
        a = self.varbytes()
        b = self.varbytes()
        s = self.stack()
        return (s, a, b, self.stack())

    def outwit(self):
        s = self.varbytes()
        return (s, self.varbytes())

    def many(self, fn):
        n = self.compact()
        if n > len(self.d):
            raise Reject('truncated')
        return tuple(fn() for _ in range(n))


def dec_tx(data):
    """The transaction encoded by data, or Reject"""
    r = Reader(data)
    version = r.fmt('<i', 4)
    flag = r.u8()
    if flag not in (0, 1):
        raise Reject('unknown flag')
    vin = r.many(r.txin)
    vout = r.many(r.txout)
    locktime = r.fmt('<I', 4)
    wit = NO_WIT
    if flag == 1:
        wit = (tuple(r.inwit() for _ in vin), tuple(r.outwit() for _ in vout))
        if wit_null((0, vin, vout, 0, wit)):
            raise Reject('superfluous witness')
    if r.p != len(data):
        raise Reject('trailing data')
    return (version, vin, vout, locktime, wit)


# ---------------------------------------------------------------- sighash

ALL, NONE, SINGLE, ACP = 1, 2, 3, 0x80


def strip_codesep(script):
    """Legacy sighash removes OP_CODESEPARATOR opcodes (not push data)"""
    out = b''
    i = 0
    last = 0
    while i < len(script):
        op = script[i]
        j = i + 1
        if op <= 75:
            j += op
        elif op == 76:
            if j + 1 > len(script):
                break
            j += 1 + script[j]
        elif op == 77:
            if j + 2 > len(script):
                break
            j += 2 + struct.unpack('<H', script[j:j + 2])[0]
        elif op == 78:
            if j + 4 > len(script):
                break
            j += 4 + struct.unpack('<I', script[j:j + 4])[0]
        if j > len(script):
            break
        if op == 0xab:
            out += script[last:i]
            last = j
        i = j
    return out + script[last:]


def sighash_legacy(script, tx, idx, ht):
    """(hash, is_error)"""
    version, vin, vout, locktime, _ = tx
    one = b'\x01' + b'\0' * 31
    if idx >= len(vin):
        return one, True
    base = ht & 0x1f
    if base == SINGLE and idx >= len(vout):
        return one, True
    script = strip_codesep(script)

    def ser_in(k, i):
        h, n, sig, seq, iss, pegin = i
        sig = script if k == idx else b''
        if k != idx and base in (SINGLE, NONE):
            seq = 0
        return enc_txin((h, n, sig, seq, iss, pegin), flags=False)

    if ht & ACP:
        ins = compact(1) + ser_in(idx, vin[idx])
    else:
        ins = compact(len(vin)) + b''.join(ser_in(k, i) for k, i in enumerate(vin))
    if base == NONE:
        outs = compact(0)
    elif base == SINGLE:
        # outputs before the signed one are blanked (CTxOut())
        blank = b'\0' * 3 + b'\0'
        outs = compact(idx + 1) + blank * idx + enc_txout(vout[idx])
    else:
        outs = compact(len(vout)) + b''.join(map(enc_txout, vout))
    pre = struct.pack('<i', version) + ins + outs + struct.pack('<I', locktime)
    return dsha(pre + struct.pack('<i', ht)), False


def sighash_v0(script, tx, idx, ht, amount):
    version, vin, vout, locktime, _ = tx
    base = ht & 0x1f
    acp = bool(ht & ACP)

    def iss_or_0(i):
        return b'\0' if issuance_null(i[4]) else enc_issuance(i[4])

    h_prev = h_seq = h_iss = h_out = Z32
    if not acp:
        h_prev = dsha(b''.join(enc_outpoint(i[0], i[1]) for i in vin))
        h_iss = dsha(b''.join(map(iss_or_0, vin)))
        if base not in (SINGLE, NONE):
            h_seq = dsha(b''.join(struct.pack('<I', i[3]) for i in vin))
    if base not in (SINGLE, NONE):
        h_out = dsha(b''.join(map(enc_txout, vout)))
    elif base == SINGLE and idx < len(vout):
        h_out = dsha(enc_txout(vout[idx]))
    i = vin[idx]
    pre = (struct.pack('<i', version) + h_prev + h_seq + h_iss
           + enc_outpoint(i[0], i[1]) + varbytes(script) + conf(amount)
           + struct.pack('<I', i[3]))
    if not issuance_null(i[4]):
        pre += enc_issuance(i[4])
    pre += h_out + struct.pack('<I', locktime) + struct.pack('<i', ht)
    return dsha(pre)


def tapleaf(script, version=0xc4):
    return tagged(b'TapLeaf/elements', bytes([version]) + varbytes(script))


def sighash_schnorr(tx, idx, spent, ht, genesis, annex_hash=None,
                    leaf_hash=None, codesep=-1):
    """ht None is SIGHASH_DEFAULT; leaf_hash None is the key path.
    None is returned if there is no signature hash (SINGLE without output)"""
    version, vin, vout, locktime, _ = tx
    hb = 0 if ht is None else ht
    ht = ALL if ht is None else ht
    acp = bool(ht & ACP)
    out_type = ht & 3

    def opflag(i):
        return bytes([(0 if issuance_null(i[4]) else 0x80) | (0x40 if i[5] else 0)])

    def iss_or_0(i):
        return b'\0' if issuance_null(i[4]) else enc_issuance(i[4])

    def iss_rp(k):
        w = inwit(tx, k)
        return varbytes(w[1]) + varbytes(w[2])

    m = [bytes([hb]), struct.pack('<i', version), struct.pack('<I', locktime)]
    if not acp:
        m.append(sha256(b''.join(map(opflag, vin))))
        m.append(sha256(b''.join(enc_outpoint(i[0], i[1]) for i in vin)))
        m.append(sha256(b''.join(conf(o[0]) + conf(o[1]) for o in spent)))
        m.append(sha256(b''.join(varbytes(o[3]) for o in spent)))
        m.append(sha256(b''.join(struct.pack('<I', i[3]) for i in vin)))
        m.append(sha256(b''.join(map(iss_or_0, vin))))
        m.append(sha256(b''.join(iss_rp(k) for k in range(len(vin)))))
    if out_type == ALL:
        m.append(sha256(b''.join(map(enc_txout, vout))))
        m.append(sha256(b''.join(enc_outwit(outwit(tx, k)) for k in range(len(vout)))))
    m.append(bytes([(2 if leaf_hash is not None else 0) + (annex_hash is not None)]))
    if acp:
        i = vin[idx]
        m.append(opflag(i) + enc_outpoint(i[0], i[1]))
        m.append(conf(spent[idx][0]) + conf(spent[idx][1]) + varbytes(spent[idx][3]))
        m.append(struct.pack('<I', i[3]))
        if issuance_null(i[4]):
            m.append(b'\0')
        else:
            m.append(enc_issuance(i[4]) + sha256(iss_rp(idx)))
    else:
        m.append(struct.pack('<I', idx))
    if annex_hash is not None:
        m.append(annex_hash)
    if out_type == SINGLE:
        if idx >= len(vout):
            return None
        m.append(sha256(enc_txout(vout[idx])))
        m.append(sha256(enc_outwit(outwit(tx, idx))))
    if leaf_hash is not None:
        m.append(leaf_hash + b'\0' + struct.pack('<i', codesep))
    return tagged(b'TapSighash/elements', genesis * 2 + b''.join(m))


# ------------------------------------------------- sha256 midstate, issuance

_K = []
_H0 = []


def _init_k():
    # first 32 bits of the fractional parts of cube/square roots of primes
    primes = []
    c = 2
    while len(primes) < 64:
        if all(c % p for p in primes):
            primes.append(c)
        c += 1

    def iroot(n, k):
        lo, hi = 0, 1
        while hi ** k <= n:
            hi *= 2
        while lo < hi - 1:
            mid = (lo + hi) // 2
            if mid ** k <= n:
                lo = mid
            else:
                hi = mid
        return lo
    for p in primes:
        _K.append(iroot(p << 96, 3) & 0xffffffff)
    for p in primes[:8]:
        _H0.append(iroot(p << 64, 2) & 0xffffffff)


_init_k()


def midstate(block):
    """State of SHA-256 after one 64-byte block, no padding"""
    assert len(block) == 64
    w = list(struct.unpack('>16I', block))
    M = 0xffffffff

    def rr(x, n):
        return ((x >> n) | (x << (32 - n))) & M
    for i in range(16, 64):
        s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)
        s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10)
        w.append((w[i - 16] + s0 + w[i - 7] + s1) & M)
    a, b, c, d, e, f, g, h = _H0
    for i in range(64):
        t1 = (h + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & M & g))
              + _K[i] + w[i]) & M
        t2 = ((rr(a, 2) ^ rr(a, 13) ^ rr(a, 22))
              + ((a & b) ^ (a & c) ^ (b & c))) & M
        h, g, f, e, d, c, b, a = g, f, e, (d + t1) & M, c, b, a, (t1 + t2) & M
    return struct.pack('>8I', *[(x + y) & M for x, y in
                                zip((a, b, c, d, e, f, g, h), _H0)])


def merkle2(a, b):
    return midstate(a + b)


def issuance_entropy(prev_hash, prev_n, contract_hash):
    return merkle2(dsha(enc_outpoint(prev_hash, prev_n)), contract_hash)


def issuance_asset(entropy):
    return merkle2(entropy, Z32)


def issuance_token(entropy, confidential):
    return merkle2(entropy, bytes([2 if confidential else 1]) + b'\0' * 31)


# ---------------------------------------------------------- address codecs

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58check_enc(payload):
    data = payload + dsha(payload)[:4]
    n = int.from_bytes(data, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(data) - len(data.lstrip(b'\0'))) + s


def b58check_dec(s):
    """payload or None"""
    n = 0
    for c in s:
        if c not in B58:
            return None
        n = n * 58 + B58.index(c)
    body = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    data = b'\0' * (len(s) - len(s.lstrip('1'))) + body
    if len(data) < 4 or dsha(data[:-4])[:4] != data[-4:]:
        return None
    return data[:-4]


CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


class SegwitCodec:
    def __init__(self, gens, ncheck, const_m, maxlen, extra):
        self.gens = gens
        self.n = ncheck
        self.shift = 5 * (ncheck - 1)
        self.mask = (1 << self.shift) - 1
        self.consts = {'1': 1, 'm': const_m}
        self.maxlen = maxlen
        self.extra = extra

    def polymod(self, values, chk=1):
        for v in values:
            top = chk >> self.shift
            chk = ((chk & self.mask) << 5) ^ v
            for i, g in enumerate(self.gens):
                if (top >> i) & 1:
                    chk ^= g
        return chk

    @staticmethod
    def expand(hrp):
        return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]

    def checksum(self, hrp, data, const):
        pm = self.polymod(self.expand(hrp) + data + [0] * self.n) ^ const
        return [(pm >> 5 * (self.n - 1 - i)) & 31 for i in range(self.n)]

    def encode_raw(self, hrp, data, const):
        return hrp + '1' + ''.join(CHARSET[d] for d in
                                   data + self.checksum(hrp, data, const))

    def encode(self, hrp, witver, prog):
        n = int.from_bytes(prog, 'big')
        bits = len(prog) * 8
        pad = -bits % 5
        n <<= pad
        k = (bits + pad) // 5
        data = [witver] + [(n >> 5 * (k - 1 - i)) & 31 for i in range(k)]
        return self.encode_raw(hrp, data, self.consts['1' if witver == 0 else 'm'])

    def decode(self, s):
        """(hrp, witver, program) or None"""
        if any(not 33 <= ord(c) <= 126 for c in s):
            return None
        if s != s.lower() and s != s.upper():
            return None
        s = s.lower()
        pos = s.rfind('1')
        if pos < 1 or len(s) - pos - 1 < self.n or len(s) > self.maxlen:
            return None
        if any(c not in CHARSET for c in s[pos + 1:]):
            return None
        hrp = s[:pos]
        data = [CHARSET.index(c) for c in s[pos + 1:]]
        pm = self.polymod(self.expand(hrp) + data)
        data = data[:-self.n]
        if not data or data[0] > 16:
            return None
        if pm != self.consts['1' if data[0] == 0 else 'm']:
            return None
        bits = 5 * (len(data) - 1)
        n = 0
        for d in data[1:]:
            n = n << 5 | d
        pad = bits % 8
        if pad >= 5 or n & ((1 << pad) - 1):
            return None
        prog = (n >> pad).to_bytes(bits // 8, 'big')
        if not 2 <= len(prog) <= 40 + self.extra:
            return None
        if data[0] == 0 and len(prog) not in (20 + self.extra, 32 + self.extra):
            return None
        return hrp, data[0], prog


BECH32 = SegwitCodec([0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3],
                     6, 0x2bc830a3, 90, 0)
BLECH32 = SegwitCodec([0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18,
                       0x385d72fa0e5139, 0x7093e5a608865b],
                      12, 0x455972a3350f7a1, 1000, 33)

# ---------------------------------------------------------------- scripts


def parse_ops(script):
    """Lazily yields (opcode, pushed data or None); Reject if malformed"""
    i = 0
    while i < len(script):
        op = script[i]
        i += 1
        if op > 78:
            yield op, None
            continue
        if op < 76:
            n = op
        else:
            k = {76: 1, 77: 2, 78: 4}[op]
            if i + k > len(script):
                raise Reject('truncated push')
            n = int.from_bytes(script[i:i + k], 'little')
            i += k
        if i + n > len(script):
            raise Reject('truncated push')
        yield op, script[i:i + n]
        i += n


def pegout(script):
    """(genesis_hash, parent_chain_script) or None"""
    ops = parse_ops(script)
    try:
        op, data = next(ops)
        if op != 0x6a:
            return None
        op, gen = next(ops)
        if gen is None or len(gen) != 32:
            return None
        op, spk = next(ops)
        if not spk:
            return None
        return gen, spk
    except (StopIteration, Reject):
        return None


def unspendable(script):
    return len(script) == 0 or script[0] == 0x6a or len(script) > 10000


# ------------------------------------------------------------ secp256k1

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
G = (GX, GY)


def inv(a, m=P):
    return pow(a, -1, m)


def ec_add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        lam = 3 * a[0] * a[0] * inv(2 * a[1]) % P
    else:
        lam = (b[1] - a[1]) * inv((b[0] - a[0]) % P) % P
    x = (lam * lam - a[0] - b[0]) % P
    return x, (lam * (a[0] - x) - a[1]) % P


def ec_neg(a):
    return None if a is None else (a[0], -a[1] % P)


def _jdbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P


def _jadd_affine(p, q):
    if p[2] == 0:
        return (q[0], q[1], 1)
    x1, y1, z1 = p
    z2 = z1 * z1 % P
    u2 = q[0] * z2 % P
    s2 = q[1] * z2 * z1 % P
    if x1 == u2:
        if y1 == s2:
            return _jdbl(p)
        return (0, 1, 0)
    h = (u2 - x1) % P
    r = (s2 - y1) % P
    h2 = h * h % P
    h3 = h * h2 % P
    x3 = (r * r - h3 - 2 * x1 * h2) % P
    return x3, (r * (x1 * h2 - x3) - y1 * h3) % P, h * z1 % P


def ec_mul(k, p):
    k %= N
    if p is None or k == 0:
        return None
    acc = (0, 1, 0)
    for bit in bin(k)[2:]:
        acc = _jdbl(acc)
        if bit == '1':
            acc = _jadd_affine(acc, p)
    if acc[2] == 0:
        return None
    zi = inv(acc[2])
    return acc[0] * zi * zi % P, acc[1] * zi * zi * zi % P


def lift_x(x, odd):
    if x >= P:
        return None
    y2 = (x * x * x + 7) % P
    y = pow(y2, (P + 1) // 4, P)
    if y * y % P != y2:
        return None
    return x, (y if y & 1 == int(bool(odd)) else P - y)


def is_square(a):
    return a == 0 or pow(a, (P - 1) // 2, P) == 1


def sqrt(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None


def pub_parse(b):
    if len(b) == 33 and b[0] in (2, 3):
        return lift_x(int.from_bytes(b[1:], 'big'), b[0] & 1)
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - x * x * x - 7) % P:
            return None
        if b[0] != 4 and b[0] & 1 != y & 1:
            return None
        return x, y
    return None


def pub_ser(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')


# --- Elements generators and Pedersen commitments

_SVDW_C = 0x0a2d2ba93507f1df233770c2a797962cc61f6d15da14ecd47d8d27ae1cd5f852
_SVDW_D = 0x851695d49a83f8ef919bb86153cbcb16630fb68aed0a766a3ec693d68e6afa40


def _svdw(t):
    """Shallue - van de Woestijne map of libsecp256k1-zkp"""
    t %= P
    wd = (t * t + 8) % P            # 1 + b + t^2
    w = _SVDW_C * t * inv(wd) % P if wd else 0
    x1 = (_SVDW_D - t * w) % P
    x2 = (-x1 - 1) % P
    x3 = (1 + (inv(w * w % P) if w else 0)) % P
    for x in (x1, x2, x3):
        y = sqrt((x * x * x + 7) % P)
        if y is not None:
            break
    if t & 1:
        y = -y % P
    return x, y


def generator(asset):
    a = _svdw(int.from_bytes(sha256(b'1st generation: ' + asset), 'big'))
    b = _svdw(int.from_bytes(sha256(b'2nd generation: ' + asset), 'big'))
    return ec_add(a, b)


def gen_ser(p):
    return bytes([11 ^ is_square(p[1])]) + p[0].to_bytes(32, 'big')


def ped_ser(p):
    return bytes([9 ^ is_square(p[1])]) + p[0].to_bytes(32, 'big')


def _parse_sq(b, base):
    if len(b) != 33 or b[0] & 0xfe != base:
        return None
    x = int.from_bytes(b[1:], 'big')
    if x >= P:
        return None
    y = sqrt((x * x * x + 7) % P)
    if y is None:
        return None
    # sqrt() returns the square root that is itself a square
    return (x, y) if b[0] == base else (x, P - y)


def gen_parse(b):
    return _parse_sq(b, 10)


def ped_parse(b):
    return _parse_sq(b, 8)


def blinded_generator(asset, abf):
    return ec_add(generator(asset), ec_mul(int.from_bytes(abf, 'big'), G))


def pedersen(vbf, value, gen):
    return ec_add(ec_mul(int.from_bytes(vbf, 'big'), G), ec_mul(value, gen))


# ------------------------------------------------------------------ taproot

def tapbranch(a, b):
    return tagged(b'TapBranch/elements', min(a, b) + max(a, b))


def taptweak(xonly, merkle_root=b''):
    """(output x-only key, parity)"""
    t = int.from_bytes(tagged(b'TapTweak/elements', xonly + merkle_root), 'big')
    assert t < N
    q = ec_add(lift_x(int.from_bytes(xonly, 'big'), 0), ec_mul(t, G))
    return q[0].to_bytes(32, 'big'), q[1] & 1


def control_block_root(script, control, leaf_mask=0xfe):
    """The merkle root proved by a control block (BIP341 with Elements tags)"""
    k = tapleaf(script, control[0] & leaf_mask)
    path = control[33:]
    assert len(path) % 32 == 0
    for i in range(0, len(path), 32):
        k = tapbranch(k, path[i:i + 32])
    return k


@functools.lru_cache(100000)
def blinding_nonce(secret, pub):
    """the nonce that sender and receiver of a blinded output share"""
    p = ec_mul(int.from_bytes(secret, 'big'), pub_parse(pub))
    return sha256(sha256(pub_ser(p)))
