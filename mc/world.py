"""Two block chains and their wallet daemons as a model, on which the example
programs run as processes under a controlled scheduler with a logical clock.

Every participant process is started by the example's own main(); what it does
to the outside world - calls of the daemon, messages, sleeping - goes through
a socket to the controller, which executes one request at a time, in the order
of logical time, so that an execution is a function of its plan of faults."""
import decimal
import io
import os
import pickle
import runpy
import shutil
import signal
import socket
import struct
import sys
import tempfile
from multiprocessing.connection import Connection
from . import ref, shim, addrspace

D = decimal.Decimal
COIN = 10 ** 8
RPC_COST = 0.125
END = 2000.0
ATTACKER = ref.sha256(b'attacker')


class Refused(Exception):
    def __init__(self, code, msg):
        super().__init__(msg)
        self.code = code


def lx(h):
    return bytes.fromhex(h)[::-1]


def rx(b):
    return b[::-1].hex()


# ------------------------------------------------------------------- scripts

def ecdsa_ok(pub, h, sig):
    from bitcointx.core.key import CPubKey
    try:
        return bool(CPubKey(pub).verify(h, sig))
    except Exception:
        return False


def truth(b):
    return any(b[:-1]) or (len(b) > 0 and b[-1] not in (0, 0x80))


def number(b):
    if not b:
        return 0
    n = int.from_bytes(b[:-1] + bytes([b[-1] & 0x7f]), 'little')
    return -n if b[-1] & 0x80 else n


def evaluate(script, stack, checksig, checkcsv, elements):
    """False or the final stack; the opcodes that the examples use"""
    skip, conds = 0, []
    for op, data in ref.parse_ops(script):
        live = all(conds)
        if op == 0x63:
            conds.append(live and truth(stack.pop()))
            continue
        if op == 0x67:
            conds[-1] = not conds[-1] and all(conds[:-1])
            continue
        if op == 0x68:
            conds.pop()
            continue
        if not live:
            continue
        if data is not None:
            stack.append(data)
        elif 0x51 <= op <= 0x60:
            stack.append(bytes([op - 0x50]))
        elif op == 0x75:
            stack.pop()
        elif op == 0x76:
            stack.append(stack[-1])
        elif op == 0x7c:
            stack[-1], stack[-2] = stack[-2], stack[-1]
        elif op == 0x7e and elements:
            b = stack.pop()
            stack[-1] += b
            if len(stack[-1]) > 520:
                return False
        elif op in (0x87, 0x88):
            same = stack.pop() == stack.pop()
            if op == 0x87:
                stack.append(b'\x01' if same else b'')
            elif not same:
                return False
        elif op == 0xa9:
            stack.append(ref.ripemd160(ref.sha256(stack.pop())))
        elif op == 0xac:
            pub, sig = stack.pop(), stack.pop()
            stack.append(b'\x01' if checksig(sig, pub) else b'')
        elif op == 0xb2:
            if not checkcsv(number(stack[-1])):
                return False
        elif op == 0xc2 and elements:
            pub, msg, sig = stack.pop(), stack.pop(), stack.pop()
            if not ecdsa_ok(pub, ref.sha256(msg), sig):
                return False
        else:
            raise Refused(-26, 'opcode %#x is not modelled' % op)
    return stack


def spend_ok(spk, ssig, witness, elements, legacy_hash, v0_hash, csv):
    """does the input satisfy the script of the coin"""
    def sigcheck(hashfn, code):
        def fn(sig, pub):
            return len(sig) > 1 and ecdsa_ok(pub, hashfn(code, sig[-1]), sig[:-1])
        return fn

    def run(script, stack, hashfn):
        try:
            out = evaluate(script, stack, sigcheck(hashfn, script), csv, elements)
        except (IndexError, ref.Reject):
            return False
        return out is not False and len(out) > 0 and truth(out[-1])

    def segwit(prog):
        if len(prog) == 20:
            return (len(witness) == 2 and run(
                b'\x76\xa9\x14' + prog + b'\x88\xac', list(witness), v0_hash))
        if len(prog) == 32:
            return (len(witness) >= 1 and ref.sha256(witness[-1]) == prog
                    and run(witness[-1], list(witness[:-1]), v0_hash))
        return False

    try:
        stack = [d if d is not None else bytes([op - 0x50]) for op, d in ref.parse_ops(ssig)]
    except (ref.Reject, ValueError):
        return False
    if spk[:1] == b'\0' and len(spk) in (22, 34):
        return ssig == b'' and segwit(spk[2:])
    if len(spk) == 23 and spk[0] == 0xa9:
        if not stack or ref.ripemd160(ref.sha256(stack[-1])) != spk[2:22]:
            return False
        redeem = stack.pop()
        if redeem[:1] == b'\0' and len(redeem) in (22, 34):
            return not stack and segwit(redeem[2:])
        return not witness and run(redeem, stack, legacy_hash)
    return not witness and run(spk, stack, legacy_hash)


# -------------------------------------------------------------------- chains

class Chain:
    def __init__(self, name):
        self.name = name
        self.raw, self.ins, self.outs = {}, {}, {}
        self.where = {}          # txid -> height, or None
        self.spent = {}
        self.blocks = []
        self.serial = 0

    def hash_of(self, h):
        return ref.sha256(b'%s block %d' % (self.name.encode(), h)).hex()

    def add(self, txid, raw, ins, outs):
        self.raw[txid], self.ins[txid], self.outs[txid] = raw, ins, outs
        self.where[txid] = None
        for i in ins:
            self.spent[i] = txid

    def mine(self):
        h = len(self.blocks)
        cb = ref.sha256(b'%s coinbase %d' % (self.name.encode(), h)).hex()
        self.add(cb, b'', [], [])
        txs = [t for t, w in self.where.items() if w is None]
        txs.sort(key=lambda t: t != cb)
        for t in txs:
            self.where[t] = h
        self.blocks.append(txs)
        return self.hash_of(h)

    def confirmations(self, txid):
        w = self.where[txid]
        return 0 if w is None else len(self.blocks) - w

    def coin(self, op):
        txid, n = op
        if op in self.spent:
            raise Refused(-26, 'txn-mempool-conflict')
        if txid not in self.outs or n >= len(self.outs[txid]):
            raise Refused(-25, 'bad-txns-inputs-missingorspent')
        return self.outs[txid][n]

    def csv(self, version, seq, conf):
        def check(n):
            return (n >= 0 and version >= 2 and not seq & 0x80000000 and not seq & 0x400000
                    and seq & 0xffff >= n & 0xffff and seq <= 0xffffffff)
        return check

    def relative(self, version, seq, conf):
        if version >= 2 and not seq & 0x80000000 and seq & 0xffff and seq & 0xffff > conf:
            raise Refused(-26, 'non-BIP68-final')

    def getrawtransaction(self, txid):
        if txid not in self.raw:
            raise Refused(-5, 'No such mempool or blockchain transaction')
        r = {'txid': txid, 'hex': self.raw[txid].hex(),
             'vin': [{'txid': t, 'vout': n} for t, n in self.ins[txid]] or [{'coinbase': '00'}],
             'vout': [dict(self.describe(o), n=n) for n, o in enumerate(self.outs[txid])]}
        if self.where[txid] is not None:
            r['confirmations'] = self.confirmations(txid)
            r['blockhash'] = self.hash_of(self.where[txid])
        return r

    def getblock(self, bh):
        for h in range(len(self.blocks)):
            if self.hash_of(h) == bh:
                r = {'hash': bh, 'tx': list(self.blocks[h])}
                if h + 1 < len(self.blocks):
                    r['nextblockhash'] = self.hash_of(h + 1)
                return r
        raise Refused(-5, 'Block not found')


class Elements(Chain):
    """outputs are (asset, value, nonce, script), as in ref"""

    def describe(self, o):
        return {'scriptPubKey': {'hex': o[3].hex()}}

    def accept(self, raw):
        try:
            t = ref.dec_tx(raw)
        except ref.Reject as e:
            raise Refused(-22, 'TX decode failed: %s' % e)
        txid = rx(ref.txid(t))
        ins = [(rx(i[0]), i[1]) for i in t[1]]
        if txid in self.raw:
            return txid
        if not ins or len(set(ins)) != len(ins):
            raise Refused(-26, 'bad-txns-inputs')
        coins = [self.coin(i) for i in ins]
        for k, (i, c) in enumerate(zip(t[1], coins)):
            if i[4] != ref.NULL_ISSUANCE or i[5]:
                raise Refused(-26, 'issuances and peg-ins are not modelled')
            conf = self.confirmations(ins[k][0])
            self.relative(t[0], i[3], conf)
            if not spend_ok(c[3], i[2], ref.inwit(t, k)[0], True,
                            lambda s, ht: ref.sighash_legacy(s, t, k, ht)[0],
                            lambda s, ht: ref.sighash_v0(s, t, k, ht, c[1]),
                            self.csv(t[0], i[3], conf)):
                raise Refused(-26, 'mandatory-script-verify-flag-failed')
        self.balanced(t, coins)
        self.add(txid, raw, ins, list(t[2]))
        return txid

    def balanced(self, t, coins):
        acc, gens, fee = None, [], 0

        def point(o):
            g = ref.generator(o[0][1:]) if o[0][0] == 1 else ref.gen_parse(o[0])
            if g is None:
                raise Refused(-26, 'bad asset commitment')
            if o[1][0] == 1:
                n = int.from_bytes(o[1][1:], 'big')
                if n > 21 * 10 ** 14:
                    raise Refused(-26, 'bad-txns-vout-toolarge')
                return ref.ec_mul(n, g) if n else None
            p = ref.ped_parse(o[1])
            if p is None:
                raise Refused(-26, 'bad value commitment')
            return p

        for c in coins:
            acc = ref.ec_add(acc, point(c))
            gens.append(shim.raw_gen(c[0][1:]) if c[0][0] == 1 else shim.parse_gen(c[0]))
        for k, o in enumerate(t[2]):
            if not o[0] or not o[1]:
                raise Refused(-26, 'output without an asset or an amount')
            acc = ref.ec_add(acc, ref.ec_neg(point(o)))
            if o[3] == b'':
                if o[0][0] != 1 or o[1][0] != 1:
                    raise Refused(-26, 'fee is not explicit')
                fee += int.from_bytes(o[1][1:], 'big')
            sp, rp = ref.outwit(t, k)
            raw = shim.raw_gen(o[0][1:]) if o[0][0] == 1 else shim.parse_gen(o[0])
            if o[0][0] != 1 and not (sp and shim.surj_ok(sp, gens, raw)):
                raise Refused(-26, 'bad surjection proof')
            if o[1][0] != 1 and not (rp and shim.range_verify(rp, o[1] + b'\0' * 31, o[3], raw)):
                raise Refused(-26, 'bad range proof')
        if acc is not None:
            raise Refused(-26, 'bad-txns-in-ne-out')
        if fee <= 0:
            raise Refused(-26, 'min relay fee not met')

    def make(self, outs, fee_asset, first=False):
        """a transaction of somebody else's coins: outs are (asset, amount, script, blinding pubkey,
        and the asset that the range proof claims, if it is another one)"""
        self.serial += 1
        s = ref.sha256(b'funding %d' % self.serial)
        vout, wits, secrets = [], [], []
        for k, (asset, amount, spk, pub, *claim) in enumerate(outs):
            abf, vbf = ref.sha256(s + b'a%d' % k), ref.sha256(s + b'v%d' % k)
            if pub is None:
                vout.append((b'\1' + asset, b'\1' + struct.pack('>q', amount), b'', spk))
                wits.append((b'', b''))
                secrets.append((asset, amount, ref.Z32, ref.Z32))
                continue
            eph = ref.sha256(s + b'e%d' % k)
            raw = shim.raw_gen(asset, abf)
            com = shim.commit(vbf, amount, raw)
            rp = shim.sign(1, com, vbf, ref.blinding_nonce(eph, pub), 0, 36, amount,
                           (claim[0] if claim else asset) + abf, spk, raw)
            assert rp
            vout.append((shim.ser_gen(raw), com,
                         ref.pub_ser(ref.ec_mul(int.from_bytes(eph, 'big'), ref.G)), spk))
            wits.append((b'\0', rp))
            secrets.append((asset, amount, vbf, abf))
        vout.append((b'\1' + fee_asset, b'\1' + struct.pack('>q', 1000), b'', b''))
        wits.append((b'', b''))
        if not any(w[1] for w in wits):
            wits = []
        t = (2, ((s, 0, b'', 0xfffffffe, ref.NULL_ISSUANCE, False),), tuple(vout), 0,
             ((ref.NULL_INWIT,), tuple(wits)) if wits else ref.NO_WIT)
        txid = rx(ref.txid(t))
        self.add(txid, ref.enc_tx(t), [(rx(s), 0)], vout)
        return txid, secrets


class Bitcoin(Chain):
    """outputs are (value, script)"""

    def describe(self, o):
        from bitcointx import ChainParams
        from bitcointx.wallet import CCoinAddress
        from bitcointx.core.script import CBitcoinScript
        with ChainParams(self.name):
            a = str(CCoinAddress.from_scriptPubKey(CBitcoinScript(o[1])))
        return {'value': D(o[0]) / COIN, 'scriptPubKey': {'hex': o[1].hex(), 'addresses': [a]}}

    def accept(self, raw):
        from bitcointx.core import CBitcoinTransaction
        from bitcointx.core.script import CBitcoinScript, SIGVERSION_BASE, SIGVERSION_WITNESS_V0
        try:
            t = CBitcoinTransaction.deserialize(raw)
        except Exception as e:
            raise Refused(-22, 'TX decode failed: %s' % e)
        txid = rx(t.GetTxid())
        if txid in self.raw:
            return txid
        ins = [(rx(i.prevout.hash), i.prevout.n) for i in t.vin]
        if not ins or len(set(ins)) != len(ins):
            raise Refused(-26, 'bad-txns-inputs')
        coins = [self.coin(i) for i in ins]
        for k, c in enumerate(coins):
            conf = self.confirmations(ins[k][0])
            self.relative(t.nVersion, t.vin[k].nSequence, conf)
            wit = [bytes(w) for w in t.wit.vtxinwit[k].scriptWitness.stack] if t.wit.vtxinwit else []
            if not spend_ok(c[1], bytes(t.vin[k].scriptSig), wit, False,
                            lambda s, ht: CBitcoinScript(s).sighash(
                                t, k, ht, amount=c[0], sigversion=SIGVERSION_BASE),
                            lambda s, ht: CBitcoinScript(s).sighash(
                                t, k, ht, amount=c[0], sigversion=SIGVERSION_WITNESS_V0),
                            self.csv(t.nVersion, t.vin[k].nSequence, conf)):
                raise Refused(-26, 'mandatory-script-verify-flag-failed')
        if sum(c[0] for c in coins) <= sum(o.nValue for o in t.vout):
            raise Refused(-26, 'bad-txns-in-belowout')
        self.add(txid, raw, ins, [(o.nValue, bytes(o.scriptPubKey)) for o in t.vout])
        return txid

    def make(self, outs):
        from bitcointx.core import CBitcoinTransaction, CBitcoinTxIn, CBitcoinTxOut, CBitcoinOutPoint
        from bitcointx.core.script import CBitcoinScript
        self.serial += 1
        s = ref.sha256(b'btc funding %d' % self.serial)
        t = CBitcoinTransaction([CBitcoinTxIn(CBitcoinOutPoint(s, 0))],
                                [CBitcoinTxOut(v, CBitcoinScript(k)) for v, k in outs])
        txid = rx(t.GetTxid())
        self.add(txid, t.serialize(), [(rx(s), 0)], list(outs))
        return txid


# ------------------------------------------------------------------- wallets

class Wallet:
    """the daemon of one participant on an Elements chain"""

    def __init__(self, name, chain, kind, fee_asset):
        self.name, self.chain, self.kind, self.fee_asset = name, chain, kind, fee_asset
        self.keys = {}           # script -> (secret, blinding secret, address, confidential address)
        self.byaddr = {}
        self.known = {}          # outpoint -> secrets of coins that the daemon made
        self.issued = []
        self.paid = []           # what sendtoaddress has sent

    def new(self):
        n = len(self.keys)
        s = ref.sha256(b'key %s %d' % (self.name.encode(), n))
        b = ref.sha256(b'blind %s %d' % (self.name.encode(), n))
        pub = ref.pub_ser(ref.ec_mul(int.from_bytes(s, 'big'), ref.G))
        bpub = ref.pub_ser(ref.ec_mul(int.from_bytes(b, 'big'), ref.G))
        h = ref.ripemd160(ref.sha256(pub))
        if self.kind == 'P2SH':
            h = ref.ripemd160(ref.sha256(b'\0\x14' + h))
        spk = addrspace.spk(self.kind, h)
        a = addrspace.encode('elements', self.kind, None, h)
        c = addrspace.encode('elements', self.kind, bpub, h)
        self.keys[spk] = (s, b, a, c, bpub)
        self.byaddr[a] = self.byaddr[c] = spk
        return spk

    def owned(self, blocks_only=False):
        """(outpoint, asset, amount, vbf, abf) of the unspent coins that the wallet can spend"""
        ch = self.chain
        for txid, outs in ch.outs.items():
            if blocks_only and ch.where[txid] is None:
                continue
            for n, o in enumerate(outs):
                op = (txid, n)
                if o[3] not in self.keys or op in ch.spent:
                    continue
                s = self.known.get(op) or self.unblind(op, o)
                if s:
                    yield op, s, o

    def unblind(self, op, o):
        if o[0][0] == 1 and o[1][0] == 1:
            return o[0][1:], int.from_bytes(o[1][1:], 'big'), ref.Z32, ref.Z32
        if len(o[2]) != 33:
            return None
        rp = ref.outwit(ref.dec_tx(self.chain.raw[op[0]]), op[1])[1]
        nonce = ref.blinding_nonce(self.keys[o[3]][1], o[2])
        r = shim.rewind(rp, o[1], nonce, o[3], shim.parse_gen(o[0]))
        if r is None:
            return None
        v, vbf, msg = r
        asset, abf = msg[:32], msg[32:64]
        raw = shim.raw_gen(asset, abf)
        if shim.ser_gen(raw) != o[0] or shim.commit(vbf, v, raw) != o[1]:
            return None
        return asset, v, vbf, abf

    def holdings(self):
        out = {}
        for _, s, _ in self.owned():
            out[s[0]] = out.get(s[0], 0) + s[1]
        return out

    # ---- calls
    def getnewaddress(self, *a):
        return self.keys[self.new()][3]

    def dumpprivkey(self, a):
        return ref.b58check_enc(b'\xef' + self.keys[self.byaddr[a]][0] + b'\1')

    def dumpblindingkey(self, a):
        return self.keys[self.byaddr[a]][1].hex()

    def fund(self, asset, amount, blinded):
        spk = self.new()
        txid, sec = self.chain.make([(asset, amount, spk, self.keys[spk][4] if blinded else None)],
                                    self.fee_asset)
        self.known[txid, 0] = sec[0]

    def issueasset(self, amount, tokens):
        asset = ref.sha256(b'issued by %s %d' % (self.name.encode(), len(self.keys)))
        self.fund(asset, int(round(amount * COIN)), True)
        self.issued.append((asset, int(round(amount * COIN))))
        return {'asset': rx(asset)}

    def listunspent(self, lo, hi, addrs, unsafe, opts):
        out = []
        for op, (asset, amount, vbf, abf), o in self.owned():
            if not lo <= self.chain.confirmations(op[0]) <= hi or rx(asset) != opts.get('asset', rx(asset)):
                continue
            u = {'txid': op[0], 'vout': op[1], 'address': self.keys[o[3]][2], 'amount': D(amount) / COIN,
                 'asset': rx(asset), 'amountblinder': rx(vbf), 'assetblinder': rx(abf)}
            if o[1][0] != 1:
                u['amountcommitment'], u['assetcommitment'] = o[1].hex(), o[0].hex()
            out.append(u)
        return out

    def getbalance(self, who, conf, watch, asset):
        return sum((D(s[1]) / COIN for op, s, o in self.owned()
                    if rx(s[0]) == asset and self.chain.confirmations(op[0]) >= conf), D(0))

    def generatetoaddress(self, n, addr):
        return [self.chain.mine() for _ in range(n)]

    def getrawtransaction(self, txid, verbose):
        return self.chain.getrawtransaction(txid)

    def getblock(self, bh):
        return self.chain.getblock(bh)

    def sendrawtransaction(self, h):
        return self.chain.accept(bytes.fromhex(h))

    def ping(self):
        return None

    def sendtoaddress(self, addr, amount):
        d = addrspace.decode(addr)
        if d is None or d[0] != 'elements':
            raise Refused(-5, 'Invalid address')
        _, kind, pub, h = d
        change = self.new()
        pay = (self.fee_asset, int(round(amount * COIN)), addrspace.spk(kind, h), pub)
        outs = twisted(pay, self.twist) + [(self.fee_asset, 5 * COIN, change, self.keys[change][4])]
        if self.change_first:
            outs.reverse()
        txid, sec = self.chain.make(outs, self.fee_asset)
        self.paid.append((txid, amount))
        return txid

    change_first = False
    twist = None


TWISTS = ('less', 'more', 'one less', 'asset', 'script', 'key', 'explicit', 'less and good', 'good and less',
          'explicit and good', 'asset and good', 'key and good', 'nothing', 'lie', 'lie and good')


def twisted(pay, twist):
    """what a cheating payer sends instead of (asset, amount, script, blinding key)"""
    asset, amount, spk, pub = pay
    one = {None: pay, 'less': (asset, amount - 1000000, spk, pub), 'more': (asset, amount + 1000000, spk, pub),
           'one less': (asset, amount - 1, spk, pub), 'asset': (ref.sha256(b'worthless'), amount, spk, pub),
           'lie': (ref.sha256(b'worthless'), amount, spk, pub, asset),
           'script': (asset, amount, b'\0\x14' + ref.sha256(ATTACKER)[:20], pub),
           'key': (asset, amount, spk, ref.pub_ser(ref.G)), 'explicit': (asset, amount, spk, None), 'good': pay}
    if twist == 'nothing':
        return []
    return [one[t] for t in (twist.split(' and ') if twist else (None,))]


class BitcoinWallet(Wallet):
    def new(self):
        n = len(self.keys)
        s = ref.sha256(b'btc key %s %d' % (self.name.encode(), n))
        pub = ref.pub_ser(ref.ec_mul(int.from_bytes(s, 'big'), ref.G))
        h = ref.ripemd160(ref.sha256(pub))
        spk = b'\0\x14' + h
        self.keys[spk] = (s, None, ref.BECH32.encode('bcrt', 0, h))
        return spk

    def getnewaddress(self, *a):
        return self.keys[self.new()][2]

    def owned(self, blocks_only=False):
        for txid, outs in self.chain.outs.items():
            for n, o in enumerate(outs):
                if o[1] in self.keys and (txid, n) not in self.chain.spent:
                    yield (txid, n), ('BTC', o[0]), o

    def sendtoaddress(self, addr, amount):
        d = ref.BECH32.decode(addr)
        if d is None or d[0] != 'bcrt':
            raise Refused(-5, 'Invalid address')
        pay = (None, int(round(amount * COIN)), bytes([d[1] and d[1] + 0x50, len(d[2])]) + d[2], None)
        outs = [(v, k) for _, v, k, *_ in twisted(pay, self.twist)] + [
            (5 * COIN, b'\0\x14' + ref.sha256(b'change')[:20])]
        if self.change_first:
            outs.reverse()
        txid = self.chain.make(outs)
        self.paid.append((txid, amount))
        return txid


# ---------------------------------------------------------------- execution

class Fault(Exception):
    "an unexpected failure inside a participant"


class Agent:
    "the participant's side of the socket"
    conn = None
    spares = ()

    @classmethod
    def call(cls, *req):
        cls.conn.send(req)
        kind, val = cls.conn.recv()
        if kind == 'ok':
            return val
        if kind == 'rpc':
            from bitcointx.rpc import JSONRPCError
            raise JSONRPCError({'code': val[0], 'message': val[1]})
        if kind == 'eof':
            raise EOFError()
        if kind == 'fork':
            if os.fork() == 0:
                cls.conn = cls.spares[val]
                raise Fault('fault')
            return cls.call(*req)
        raise Fault(str(val))


class Caller:
    "what the examples see instead of RPCCaller"

    def __init__(self, conf_file=None, **kw):
        self._conf = conf_file

    def connect(self):
        pass

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a: Agent.call('rpc', self._conf, name, a)


class End:
    "one end of a pipe"

    def __init__(self, n):
        self.n = n

    def send(self, msg):
        Agent.call('send', self.n, msg)

    def poll(self, timeout=0):
        return Agent.call('poll', self.n, timeout)

    def recv(self):
        return Agent.call('recv', self.n)


def plain(v):
    "a message without the classes of the example"
    if isinstance(v, (list, tuple)):
        f = getattr(v, '_fields', None)
        if f:
            return dict(zip(f, v))
        return [plain(x) for x in v]
    return v if isinstance(v, (int, float, str, type(None))) else bytes(v) if isinstance(v, bytes) else repr(v)


class NoLock:
    def acquire(self, *a):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Part:
    def __init__(self, name, conn, rank):
        self.name, self.conn, self.rank = name, conn, rank
        self.req, self.wake, self.count = None, 0.0, 0
        self.alive, self.paused = True, False


class World:
    """plan: list of (participant, request number, fault...) and
    (participant, 'msg', number, mutation)"""

    def __init__(self, wallets, plan=(), mutate=None):
        self.wallets = wallets       # (config file, participant) -> wallet
        self.plan = [f for f in plan if f[1] != 'msg']
        self.msgplan = {(f[0], f[2]): f[3] for f in plan if f[1] == 'msg'}
        self.mutate = mutate
        self.boxes = ([], [])
        self.sent = {}
        self.now = 0.0
        self.parts = []
        self.trace = []              # (participant, number, request without values)
        self.messages = []           # (participant, number, type, value) as sent
        self.delivered = []          # (receiver, type, value) as received
        self.exits = {}

    # -- starting
    def start(self, name, target, args):
        a, b = socket.socketpair()
        spares = [socket.socketpair() for _ in range(2)]
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(100)
                a.close()
                for p in self.parts:
                    p.conn.close()
                for s, t in spares:
                    s.close()
                Agent.conn = Connection(b.detach())
                Agent.spares = [Connection(t.detach()) for s, t in spares]
                self.child(name, target, args)
                code = 0
            except SystemExit:
                code = 0
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                try:
                    Agent.conn.send(('exit',))
                except Exception:
                    pass
                os._exit(code)
        b.close()
        p = Part(name, Connection(a.detach()), len(self.parts))
        p.spares = []
        for s, t in spares:
            t.close()
            p.spares.append(Connection(s.detach()))
        p.pid = pid
        self.parts.append(p)
        return p

    @staticmethod
    def child(name, target, args):
        import time
        state = [0]

        def urandom(n):
            state[0] += 1
            out = b''
            while len(out) < n:
                out += ref.sha256(b'%s %d %d' % (name.encode(), state[0], len(out)))
            return out[:n]
        os.urandom = urandom
        time.sleep = lambda t: Agent.call('sleep', t)
        devnull = open(os.devnull, 'w')
        sys.stdout = sys.stderr = devnull
        target(*args)

    # -- scheduling
    def fetch(self, p):
        try:
            p.req = p.conn.recv()
        except (EOFError, OSError):
            p.req = ('exit',)
        if p.req[0] == 'exit':
            p.alive = False
            self.exits[p.name] = self.now
            p.conn.close()
            return
        p.number = p.count
        p.count += 1
        what = p.req[0]
        if what == 'sleep':
            p.wake = self.now + p.req[1]
        elif what == 'rpc':
            p.wake = self.now + RPC_COST
        elif what == 'poll':
            p.wake = self.now if self.boxes[p.req[1]] else self.now + p.req[2]
        else:
            p.wake = self.now
        self.trace.append((p.name, p.number, p.req))
        for f in self.plan:
            if f[0] == p.name and f[1] == p.number and f not in self.done:
                self.done.append(f)
                self.fault(p, f)
                return

    def fault(self, p, f):
        kind = f[2]
        if kind in ('stop', 'bye'):
            if kind == 'bye':
                self.put(p, ['bye!', None])
            self.kill(p)
        elif kind == 'delay':
            p.wake += f[3]
            p.paused = True
        elif kind == 'fail':
            self.reply(p, 'fault', 'fault')
        elif kind == 'pay':
            # the payment is not what the daemon was asked for
            if p.req[0] == 'rpc':
                self.wallet(p).twist = f[3]
        elif kind == 'fork':
            # the clone fails here, and this one goes on after a pause
            c = Part(p.name + '+', p.spares.pop(), len(self.parts))
            c.spares, c.pid = [], None
            c.end = getattr(p, 'end', None)
            p.conn.send(('fork', len(p.spares)))
            self.parts.append(c)
            self.fetch(c)
            p.req = p.conn.recv()
            p.wake = self.now + f[3]
            p.paused = True

    def wallet(self, p):
        d = os.path.basename(os.path.dirname(p.req[1]))
        return self.wallets[d, p.name.rstrip('+')]

    def kill(self, p):
        p.alive = False
        if p.pid:
            os.kill(p.pid, signal.SIGKILL)
        p.conn.close()
        self.exits[p.name] = self.now

    def put(self, p, msg, end=None):
        end = p.rank if end is None else end
        n = self.sent.get(p.name, 0)
        self.sent[p.name] = n + 1
        self.messages.append((p.name, n, plain(msg)))
        mut = self.msgplan.get((p.name, n))
        if mut is not None:
            msg = self.mutate(self, p.name, n, msg, mut)
        if msg is None:
            return
        self.boxes[1 - end].append(msg)
        for q in self.parts:
            if q.alive and q.req and q.req[0] in ('poll', 'recv') and q.req[1] == 1 - end and not q.paused:
                q.wake = self.now

    def reply(self, p, kind, val):
        p.conn.send((kind, val))
        p.req = None
        p.paused = False
        self.fetch(p)

    def step(self, p):
        req = p.req
        if req[0] == 'sleep':
            self.reply(p, 'ok', None)
        elif req[0] == 'poll':
            self.reply(p, 'ok', bool(self.boxes[req[1]]))
        elif req[0] == 'recv':
            if not self.boxes[req[1]]:
                self.reply(p, 'eof', None)
                return
            m = self.boxes[req[1]].pop(0)
            self.delivered.append((p.name, plain(m)))
            self.reply(p, 'ok', m)
        elif req[0] == 'send':
            self.put(p, req[2], req[1])
            self.reply(p, 'ok', None)
        else:
            _, conf, method, args = req
            w = self.wallet(p)
            try:
                fn = getattr(w, method, None)
                if fn is None:
                    raise Refused(-32601, 'Method not found: ' + method)
                val = fn(*args)
            except Refused as e:
                self.reply(p, 'rpc', (e.code, str(e)))
            except (ValueError, TypeError, KeyError) as e:
                self.reply(p, 'rpc', (-8, repr(e)))
            else:
                self.reply(p, 'ok', val)

    def loop(self, names):
        """until none of the named participants is alive; False if they do not end"""
        self.done = []
        for p in list(self.parts):
            self.fetch(p)
        while True:
            live = [p for p in self.parts if p.alive]
            if not any(p.name.rstrip('+') in names for p in live):
                break
            p = min(live, key=lambda p: (p.wake, p.rank))
            if p.wake > END:
                break
            self.now = max(self.now, p.wake)
            self.step(p)
        hung = [p.name for p in self.parts if p.alive and p.name.rstrip('+') in names]
        for p in self.parts:
            if p.alive:
                self.kill(p)
        return hung

    # -- running an example
    def run(self, script, dirs, args, names):
        """runs the example in this process (which is thrown away); returns who did not end"""
        import multiprocessing
        import bitcointx.rpc
        tmp = tempfile.mkdtemp(prefix='mcworld')
        try:
            argv = [script]
            for d, conf in dirs:
                os.mkdir(os.path.join(tmp, d))
                open(os.path.join(tmp, d, conf), 'w').close()
                argv.append(os.path.join(tmp, d))
            sys.argv = argv + list(args)
            world = self
            result = {}

            class Process:
                def __init__(self, target=None, name=None, args=(), kwargs=None):
                    self.target, self.name, self.args = target, name, args

                def start(self):
                    world.start(self.name, self.target, self.args)

                def join(self, timeout=None):
                    if 'hung' not in result:
                        result['hung'] = world.loop(names)

                def terminate(self):
                    pass

                def is_alive(self):
                    return False

            multiprocessing.Process = Process
            multiprocessing.Pipe = lambda duplex=True: (End(0), End(1))
            multiprocessing.Lock = NoLock
            bitcointx.rpc.RPCCaller = Caller
            out, sys.stdout = sys.stdout, io.StringIO()
            try:
                runpy.run_path(script, run_name='__main__')
            finally:
                sys.stdout = out
            return result.get('hung', ['the example did not wait for its participants'])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def isolated(fn):
    """the result of fn, computed in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(110)
            os.close(r)
            try:
                res = ('ok', fn())
            except BaseException as e:
                import traceback
                res = ('error', '%r\n%s' % (e, traceback.format_exc(limit=-4)))
            try:
                data = pickle.dumps(res)
            except Exception as e:
                data = pickle.dumps(('error', 'cannot pickle the result: %r' % e))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('the execution was killed')
    kind, val = pickle.loads(data)
    if kind == 'error':
        raise RuntimeError(val)
    return val


# ------------------------------------------------------- stand-in for "ecdsa"

def install_ecdsa():
    """the few functions of the ecdsa package that an example needs, if it is not installed"""
    try:
        import ecdsa  # noqa: F401
        return False
    except ImportError:
        pass
    import types

    class Point:
        def __init__(self, p):
            self.p = p

        def __mul__(self, k):
            return Point(ref.ec_mul(k, self.p))

        def x(self):
            return self.p[0]

    curve = types.SimpleNamespace(order=ref.N, generator=Point(ref.G))

    def der_int(n):
        b = n.to_bytes((n.bit_length() + 8) // 8, 'big')
        return b'\x02' + bytes([len(b)]) + b

    def sigencode_der_canonize(r, s, order):
        s = min(s, order - s)
        body = der_int(r) + der_int(s)
        return b'\x30' + bytes([len(body)]) + body

    class SigningKey:
        @classmethod
        def from_string(cls, b, curve=None):
            k = cls()
            k.d = int.from_bytes(b, 'big')
            return k

        def sign_digest(self, digest, k=None, sigencode=None):
            r = ref.ec_mul(k, ref.G)[0] % ref.N
            s = pow(k, -1, ref.N) * (int.from_bytes(digest, 'big') + r * self.d) % ref.N
            return sigencode(r, s, ref.N)

    m = types.ModuleType('ecdsa')
    m.SECP256k1 = curve
    m.util = types.SimpleNamespace(
        string_to_number=lambda b: int.from_bytes(b, 'big'),
        number_to_string=lambda n, order: n.to_bytes(32, 'big'),
        sigencode_der_canonize=sigencode_der_canonize)
    m.numbertheory = types.SimpleNamespace(inverse_mod=lambda a, n: pow(a, -1, n))
    m.keys = types.SimpleNamespace(SigningKey=SigningKey)
    sys.modules['ecdsa'] = m
    return True
