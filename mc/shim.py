"""Builds and drives the libsecp256k1-zkp stand-in (shim/zkpshim.c)"""
import atexit
import ctypes
import os
import shutil
import subprocess
import tempfile
import elementstx
from . import ref

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ['info', 'generator_parse', 'generator_generate', 'generator_generate_blinded',
         'generator_serialize', 'commit', 'commitment_serialize', 'commitment_parse', 'blind_sum',
         'rangeproof_sign', 'rangeproof_rewind', 'surj_allocate', 'surj_destroy', 'surj_generate',
         'surj_verify', 'surj_size', 'surj_serialize']
_lib = None
_dir = None


def build():
    """compiled to a scratch directory that the building process removes"""
    global _dir
    if _dir is None:
        d = tempfile.mkdtemp(prefix='zkpshim-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-fvisibility=hidden', '-o',
                        d + '/libzkpshim.so', HERE + '/shim/zkpshim.c', '-lsecp256k1'], check=True)
        _dir = d
    return _dir + '/libzkpshim.so'


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build())
        for f in ('shim_calls', 'shim_illegal', 'shim_live', 'shim_badfree'):
            getattr(_lib, f).restype = ctypes.c_long
        _lib.shim_fault.argtypes = [ctypes.c_int, ctypes.c_long]
        _lib.shim_calls.argtypes = [ctypes.c_int]
    return _lib


def install():
    """make the library under test use the stand-in"""
    elementstx.set_custom_secp256k1_path(build())
    lib().shim_reset()


def reset():
    lib().shim_reset()


def fault(name, at=-1):
    lib().shim_fault(NAMES.index(name), at)


def calls(name):
    return lib().shim_calls(NAMES.index(name))


def health():
    """(API misuses, surjection proofs still allocated, double frees)"""
    return lib().shim_illegal(), lib().shim_live(), lib().shim_badfree()


def seeds():
    """random seeds of the surjection proofs that were made since the last call"""
    b = ctypes.create_string_buffer(64 * 32)
    n = lib().shim_seeds(b)
    assert n >= 0
    return [b.raw[32 * k:32 * k + 32] for k in range(n)]


def last_sign():
    """dict of the arguments of the last rangeproof_sign call"""
    b = (ctypes.c_long * 6)()
    lib().shim_last_sign(b)
    return dict(zip(('plen', 'min_value', 'exp', 'min_bits', 'msg_len', 'extra_len'), b))


def xy(p):
    return p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')


def rangeproof_verify(proof, commit33, extra, gen):
    """gen is an affine point. (min, max) or None"""
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    ok = lib().secp256k1_rangeproof_verify(None, ctypes.byref(mn), ctypes.byref(mx), commit33,
                                           bytes(proof), ctypes.c_size_t(len(proof)), extra or None,
                                           ctypes.c_size_t(len(extra)), xy(gen))
    return (mn.value, mx.value) if ok else None


def rangeproof_info(proof):
    e, m = ctypes.c_int(), ctypes.c_int()
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    ok = lib().secp256k1_rangeproof_info(b'x', ctypes.byref(e), ctypes.byref(m), ctypes.byref(mn),
                                         ctypes.byref(mx), bytes(proof), ctypes.c_size_t(len(proof)))
    return (e.value, m.value, mn.value, mx.value) if ok else None


def rangeproof_sign(min_value, commit33, blind, nonce, exp, bits, value, msg, extra, gen):
    buf = ctypes.create_string_buffer(5134)
    n = ctypes.c_size_t(5134)
    ok = lib().secp256k1_rangeproof_sign(
        b'x', buf, ctypes.byref(n), ctypes.c_uint64(min_value), commit33 + b'\0' * 31, blind, nonce,
        exp, bits, ctypes.c_uint64(value), msg or None, ctypes.c_size_t(len(msg)), extra or None,
        ctypes.c_size_t(len(extra)), xy(gen))
    return buf.raw[:n.value] if ok else None


def surjection_verify(proof, in_gens, out_gen):
    return bool(lib().shim_surjection_check(bytes(proof), ctypes.c_size_t(len(proof)),
                                            b''.join(xy(g) for g in in_gens),
                                            ctypes.c_size_t(len(in_gens)), xy(out_gen)))


def self_check():
    """the stand-in's algebra against the Python reference"""
    import hashlib
    l = lib()
    for i in range(40):
        a = hashlib.sha256(b'a%d' % i).digest()
        b = hashlib.sha256(b'b%d' % i).digest() if i % 4 else ref.Z32
        v = (0, 1, 2**63 - 1, 21 * 10**14, i * 12345)[i % 5]
        g, s = ctypes.create_string_buffer(64), ctypes.create_string_buffer(33)
        assert l.secp256k1_generator_generate_blinded(b'x', g, a, b) == 1
        G = ref.blinded_generator(a, b)
        assert g.raw == xy(G), i
        assert l.secp256k1_generator_serialize(b'x', s, g) == 1 and s.raw == ref.gen_ser(G)
        h = ctypes.create_string_buffer(64)
        assert l.secp256k1_generator_parse(b'x', h, s) == 1 and h.raw == g.raw
        assert ref.gen_parse(s.raw) == G
        c = ctypes.create_string_buffer(64)
        want = ref.pedersen(a, v, G)
        assert l.secp256k1_pedersen_commit(b'x', c, a, ctypes.c_uint64(v), g) == 1
        assert c.raw[:33] == ref.ped_ser(want)
        assert l.secp256k1_pedersen_commitment_parse(b'x', h, s) == (1 if s.raw[0] in (8, 9) else 0)
    l.shim_reset()


# ---- oracle algebra (C side, validated against ref by self_check) ----
_cache = {}


def raw_gen(asset, abf=ref.Z32):
    """64-byte internal form of the asset generator"""
    k = (asset, abf)
    if k not in _cache:
        g = ctypes.create_string_buffer(64)
        if abf == ref.Z32:
            ok = lib().secp256k1_generator_generate(b'x', g, asset)
        else:
            ok = lib().secp256k1_generator_generate_blinded(b'x', g, asset, abf)
        assert ok == 1
        if len(_cache) > 20000:
            _cache.clear()
        _cache[k] = g.raw
    return _cache[k]


def ser_gen(raw):
    s = ctypes.create_string_buffer(33)
    assert lib().secp256k1_generator_serialize(b'x', s, raw) == 1
    return s.raw


def parse_gen(ser):
    g = ctypes.create_string_buffer(64)
    return g.raw if lib().secp256k1_generator_parse(b'x', g, bytes(ser)) == 1 else None


def commit(vbf, value, raw):
    """serialized Pedersen commitment"""
    c = ctypes.create_string_buffer(64)
    assert lib().secp256k1_pedersen_commit(b'x', c, vbf, ctypes.c_uint64(value), raw) == 1
    return c.raw[:33]


def surj_ok(proof, raws, out_raw):
    return bool(lib().shim_surjection_check(bytes(proof), ctypes.c_size_t(len(proof)),
                                            b''.join(raws), ctypes.c_size_t(len(raws)), out_raw))


def range_verify(proof, commit33, extra, raw):
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    ok = lib().secp256k1_rangeproof_verify(None, ctypes.byref(mn), ctypes.byref(mx), commit33,
                                           bytes(proof), ctypes.c_size_t(len(proof)), extra or None,
                                           ctypes.c_size_t(len(extra)), raw)
    return (mn.value, mx.value) if ok else None


def sign(min_value, commit33, blind, nonce, exp, bits, value, msg, extra, raw):
    buf = ctypes.create_string_buffer(5134)
    n = ctypes.c_size_t(5134)
    ok = lib().secp256k1_rangeproof_sign(
        b'x', buf, ctypes.byref(n), ctypes.c_uint64(min_value), commit33 + b'\0' * 31, blind, nonce,
        exp, bits, ctypes.c_uint64(value), msg or None, ctypes.c_size_t(len(msg)), extra or None,
        ctypes.c_size_t(len(extra)), raw)
    return buf.raw[:n.value] if ok else None


def rewind(proof, commit33, nonce, extra, raw):
    """(value, blinding factor, message) as the holder of the nonce reads the proof, or None"""
    b, v = ctypes.create_string_buffer(32), ctypes.c_uint64()
    msg, n = ctypes.create_string_buffer(4096), ctypes.c_size_t(64)
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    ok = lib().secp256k1_rangeproof_rewind(
        b'x', b, ctypes.byref(v), msg, ctypes.byref(n), nonce, ctypes.byref(mn), ctypes.byref(mx),
        commit33 + b'\0' * 31, bytes(proof), ctypes.c_size_t(len(proof)), extra or None,
        ctypes.c_size_t(len(extra)), raw)
    return (v.value, b.raw, msg.raw[:n.value]) if ok else None
