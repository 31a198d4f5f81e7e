"""Monitor of the calls that are made into the native library: what C would
silently accept (too short buffers, wrapped integers, constant memory as
output, undeclared types) is recorded as misuse"""
import ctypes
import elementstx.core.secp256k1 as es

U64, INT, SIZE = ('int', 0, 2**64 - 1), ('int', -2**31, 2**31 - 1), ('int', 0, 2**64 - 1)


def out(n):
    return ('out', n)


def inp(n):
    return ('in', n)


def outlen(k):
    "output buffer whose capacity is in the object that argument k points to"
    return ('outlen', k)


def inlen(k, item=1):
    "input of as many items as argument k says"
    return ('inlen', k, item)


def ref(*types):
    return ('ref', types)


def array(t, k):
    "array of at least as many elements of type t as argument k says"
    return ('array', t, k)


CTX, HANDLE = ('handle',), ('handle',)
C_INT, C_U64, C_SIZE, C_PTR = ref(ctypes.c_int), ref(ctypes.c_uint64), ref(ctypes.c_size_t), ref(ctypes.c_void_p)
TABLE = {
    'rangeproof_info': (CTX, C_INT, C_INT, C_U64, C_U64, inlen(6), SIZE),
    'generator_parse': (CTX, out(64), inp(33)),
    'generator_generate': (CTX, out(64), inp(32)),
    'generator_generate_blinded': (CTX, out(64), inp(32), inp(32)),
    'generator_serialize': (CTX, out(33), inp(64)),
    'pedersen_commit': (CTX, out(64), inp(32), U64, inp(64)),
    'pedersen_commitment_serialize': (CTX, out(33), inp(64)),
    'pedersen_commitment_parse': (CTX, out(64), inp(33)),
    'pedersen_blind_generator_blind_sum': (CTX, array(ctypes.c_uint64, 4), array(ctypes.c_char_p, 4),
                                           array(ctypes.c_char_p, 4), SIZE, SIZE),
    'rangeproof_sign': (CTX, outlen(2), C_SIZE, U64, inp(64), inp(32), inp(32), INT, INT, U64, inlen(11), SIZE,
                        inlen(13), SIZE, inp(64)),
    'rangeproof_rewind': (CTX, out(32), C_U64, outlen(4), C_SIZE, inp(32), C_U64, C_U64, inp(64), inlen(10), SIZE,
                          inlen(12), SIZE, inp(64)),
    'surjectionproof_allocate_initialized': (CTX, C_PTR, C_SIZE, inlen(4, 32), SIZE, SIZE, inp(32), SIZE, inp(32)),
    'surjectionproof_destroy': (HANDLE,),
    'surjectionproof_generate': (CTX, HANDLE, inlen(3, 64), SIZE, inp(64), SIZE, inp(32), inp(32)),
    'surjectionproof_verify': (CTX, HANDLE, inlen(3, 64), SIZE, inp(64)),
    'surjectionproof_serialized_size': (CTX, HANDLE),
    'surjectionproof_serialize': (CTX, outlen(2), C_SIZE, HANDLE),
}


def plain(v):
    return v.value if isinstance(v, ctypes._SimpleCData) else v


def target(v):
    """the object behind byref() or pointer()"""
    if type(v).__name__ == 'CArgObject':
        return v._obj
    if isinstance(v, ctypes._Pointer):
        return v.contents
    return v if isinstance(v, (ctypes._SimpleCData, ctypes.Array)) else None


def readable(v):
    """how many bytes can be read at v, None if that is not memory"""
    if isinstance(v, (bytes, bytearray)):
        return len(v)
    t = target(v)
    return ctypes.sizeof(t) if isinstance(t, ctypes.Array) or t is not None and t is not v else None


def writable(v):
    t = target(v)
    if isinstance(t, ctypes.Array) or t is not None and t is not v:
        return ctypes.sizeof(t)
    return None


def fault(name, fn, args):
    """what is wrong with the call, or None"""
    spec = TABLE[name]
    if len(args) != len(spec):
        return '%d arguments instead of %d' % (len(args), len(spec))
    if fn.argtypes is None or len(fn.argtypes) != len(spec):
        return 'the argument types are not declared'
    for i, (s, a, t) in enumerate(zip(spec, args, fn.argtypes)):
        w = 'argument %d ' % i
        if s[0] == 'int':
            v = plain(a)
            if not isinstance(v, int) or not s[1] <= v <= s[2]:
                return w + 'is %r, which does not fit' % (a,)
            # the declared type is as wide as the value needs
            if not issubclass(t, ctypes._SimpleCData) or t(v).value != v:
                return w + 'is %r, which the declared type truncates' % (a,)
        elif s[0] == 'handle':
            if not plain(a):
                return w + 'is a null handle'
            if ctypes.sizeof(t) != ctypes.sizeof(ctypes.c_void_p):
                return w + 'is declared narrower than a pointer'
        elif s[0] in ('in', 'inlen'):
            need = s[1] if s[0] == 'in' else plain(args[s[1]]) * s[2]
            if a is None and need == 0 and s[0] == 'inlen':
                continue
            n = readable(a)
            if n is None or n < need:
                return w + 'has %s bytes, %d are read' % (n, need)
        elif s[0] in ('out', 'outlen'):
            if s[0] == 'out':
                need = s[1]
            else:
                o = target(args[s[1]])
                if o is None:
                    return w + 'has no capacity'
                need = o.value
            n = writable(a)
            if n is None:
                return w + 'is output, but a %s cannot be written to' % type(a).__name__
            if n < need:
                return w + 'has room for %d bytes, %d are written' % (n, need)
        elif s[0] == 'ref':
            o = target(a)
            if o is None or ctypes.sizeof(o) < ctypes.sizeof(s[1][0]):
                return w + 'does not point to a %s' % s[1][0].__name__
        elif s[0] == 'array':
            o = target(a)
            need = plain(args[s[2]])
            if not isinstance(o, ctypes.Array) or ctypes.sizeof(o) < need * ctypes.sizeof(s[1]):
                return w + 'is not an array of %d elements' % need
            if s[1] is ctypes.c_char_p:
                p = ctypes.cast(o, ctypes.POINTER(ctypes.c_void_p))
                if not all(p[k] for k in range(need)):
                    return w + 'has a null element'
    if name == 'pedersen_blind_generator_blind_sum' and plain(args[5]) >= plain(args[4]):
        return 'no output among the blinding factors'
    if name.startswith('surjectionproof_alloc') and plain(args[5]) > plain(args[4]):
        return 'more targets to use than there are'
    return None


class Monitor:
    """with Monitor() as m: ... - m.calls, m.faults"""

    def __enter__(self):
        self.calls, self.faults, self.kinds = 0, [], set()
        self.lib = es.get_secp256k1().lib
        self.saved = {}
        for name in TABLE:
            full = 'secp256k1_' + name
            fn = getattr(self.lib, full)
            self.saved[full] = fn
            setattr(self.lib, full, self.wrap(name, fn))
        return self

    def wrap(self, name, fn):
        def call(*args):
            self.calls += 1
            self.kinds.add(name)
            f = fault(name, fn, args)
            if f is not None:
                self.faults.append('%s: %s' % (name, f))
                raise Misuse(self.faults[-1])
            return fn(*args)
        return call

    def __exit__(self, *exc):
        for full, fn in self.saved.items():
            setattr(self.lib, full, fn)


class Misuse(BaseException):
    """not caught by handlers of ordinary errors"""
