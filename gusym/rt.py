"""Runtime of the generated code: memory model, C library, harness intrinsics."""
import math, re, struct, sys
from fractions import Fraction
from . import sym
from .sym import (R, Lazy, Ctx, Violation, Inconclusive, Infeasible, PathAbort, fdiv, fabs_, fsqrt, is_nan, is_inf,
                  f2int, ffloor, fceil, NEG, ZERO, POS)

NAN = math.nan
INF = math.inf
NINF = -math.inf
NULL = (None, 0)
S = [0]
CALLED = set()
STACK = []
SIZES = {1: 1, 2: 2, 4: 4, 8: 8, 'd': 8, 'p': 8, 'f': 4}


class ExitC(Exception):
    def __init__(self, code):
        self.code = code


def untranslated(fn, why):
    raise Inconclusive("%s: not translated: %s" % (fn, why))


def out_of_steps():
    raise Violation("nontermination", "step limit exceeded (endless loop or runaway recursion)")


class Undef:
    def _bad(self, *a):
        raise Violation("uninit", "uninitialised value used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __bool__ = __neg__ = __float__ = __int__ = __index__ = __getitem__ = _bad
    __hash__ = None

    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()
sym.UNDEF = UNDEF


class Part(Undef):
    """an integer some bytes of which are uninitialised (padding); may only be moved"""

    def __init__(self, b):
        self.bytes = b


class DBits(Undef):
    """the bits of a symbolic double held as an integer; may only be moved"""

    def __init__(self, d):
        self.d = d

    def _bad(self, *a):
        raise Inconclusive("bit pattern of a symbolic double")

    def _lt(self, o):
        if o.__class__ is int and o == 0:
            return self.d < 0.0
        self._bad()

    def _ge(self, o):
        if o.__class__ is int and o == 0:
            return self.d >= 0.0
        self._bad()

    def _gt(self, o):
        if o.__class__ is int and o == -1:
            return self.d >= 0.0
        self._bad()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __le__ = __eq__ = __ne__ = _bad
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __bool__ = __neg__ = __float__ = __int__ = __index__ = __getitem__ = _bad
    __lt__ = _lt
    __ge__ = _ge
    __gt__ = _gt
    __hash__ = None


def agset(a, v, idx):
    """insertvalue"""
    i = idx[0]
    return a[:i] + (v if len(idx) == 1 else agset(a[i], v, idx[1:]),) + a[i + 1:]


class Obj:
    __slots__ = ("cells", "size", "alive", "zero", "kind", "name", "va", "ro", "codes", "seq")

    def __init__(self, size, kind, name=""):
        self.cells = {}
        self.size = size
        self.alive = True
        self.zero = False
        self.kind = kind
        self.name = name
        self.va = None
        self.ro = False
        self.codes = None     # single cell code used so far, or 0 if mixed

    def __repr__(self):
        return "<%s %s[%d]>" % (self.kind, self.name, self.size)


class FnRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


def bad_access(o, f, n, what):
    if o is None:
        raise Violation("memory", "%s through a null/invalid pointer (%d)" % (what, f))
    if o.__class__ is not Obj:
        raise Violation("memory", "%s through a function/stream pointer" % what)
    if not o.alive:
        raise Violation("memory", "%s of freed or dead %r" % (what, o))
    raise Violation("memory", "%s out of bounds: offset %s size %d of %r" % (what, f, n, o))


def ldslow(p, code):
    if p.__class__ is not tuple:
        raise Violation("uninit", "uninitialised pointer dereferenced")
    o, f = p
    n = SIZES[code]
    if o.__class__ is not Obj or not o.alive or f < 0 or f + n > o.size:
        bad_access(o, f, n, "read")
    c = o.cells.get(f)
    if c is not None:
        if SIZES[c[0]] == n:
            return conv(c[0], c[1], code)
        if SIZES[c[0]] > n:
            return bytes_to(get_bytes(o, f, n), code)
        return bytes_to(get_bytes(o, f, n), code)
    # no cell starting here
    for k in range(1, 8):
        c = o.cells.get(f - k)
        if c is not None and SIZES[c[0]] > k:
            return bytes_to(get_bytes(o, f, n), code)
    for k in range(1, n):
        if (f + k) in o.cells:
            return bytes_to(get_bytes(o, f, n), code)
    if o.zero:
        return zero_of(code)
    return UNDEF


def zero_of(code):
    return 0.0 if code == 'd' or code == 'f' else (NULL if code == 'p' else 0)


def conv(c, v, code):
    if c == code or v is UNDEF:
        return v
    if c == 'd' and code == 8:
        if v.__class__ is Lazy:
            v = v.force()
        if v.__class__ is not float and v is not UNDEF:
            return DBits(v)
        return d2bits(v)
    if v.__class__ is DBits and code == 'd':
        return v.d
    if c == 8 and code == 'd':
        return bits2d(v)
    if c == 'p' and code == 8:
        return ptr2int(v)
    if c == 8 and code == 'p':
        return int2ptr(v)
    if c == 'd' and code == 'p':
        raise Violation("memory", "double read as a pointer")
    if c == 'p' and code == 'd' and v[0] is not None:
        raise Violation("memory", "pointer read as a double")
    return bytes_to(to_bytes(c, v), code)


def to_bytes(c, v):
    if v.__class__ is Lazy:
        v = v.force()
    if v is UNDEF:
        return [UNDEF] * SIZES[c]
    if v.__class__ is Part:
        return list(v.bytes)
    if v.__class__ is DBits:
        raise Inconclusive("byte access to a symbolic double")
    if c == 'd':
        if v.__class__ is not float:
            raise Inconclusive("byte access to a symbolic double")
        return list(struct.pack('<d', v))
    if c == 'f':
        return list(struct.pack('<f', v))
    if c == 'p':
        if v[0] is None:
            return list(struct.pack('<q', v[1]))
        raise Inconclusive("byte access to a pointer")
    n = SIZES[c]
    return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))


def bytes_to(b, code):
    for x in b:
        if x is UNDEF:
            for x in b:
                if x is not UNDEF:
                    return Part(tuple(b))
            return UNDEF
    b = bytes(b)
    if code == 'd':
        return struct.unpack('<d', b)[0]
    if code == 'f':
        return struct.unpack('<f', b)[0]
    if code == 'p':
        return int2ptr(struct.unpack('<q', b)[0])
    return int.from_bytes(b, 'little', signed=True)


def get_bytes(o, f, n):
    """list of n byte values"""
    r = []
    i = f
    while i < f + n:
        hit = None
        for k in range(0, 8):
            c = o.cells.get(i - k)
            if c is not None and SIZES[c[0]] > k:
                hit = (i - k, c)
                break
        if hit is None:
            r.append(0 if o.zero else UNDEF)
            i += 1
        else:
            s, c = hit
            bs = to_bytes(c[0], c[1])
            while i < s + len(bs) and i < f + n:
                r.append(bs[i - s])
                i += 1
    return r


def ldd(p):
    o, f = p
    if o.__class__ is Obj and o.alive:
        c = o.cells.get(f)
        if c is not None and c[0] == 'd':
            return c[1]
    return ldslow(p, 'd')


def ldf(p):
    return ldslow(p, 'f')


def ldp(p):
    o, f = p
    if o.__class__ is Obj and o.alive:
        c = o.cells.get(f)
        if c is not None and c[0] == 'p':
            return c[1]
    return ldslow(p, 'p')


def ldi(p, n):
    o, f = p
    if o.__class__ is Obj and o.alive:
        c = o.cells.get(f)
        if c is not None and c[0] == n:
            v = c[1]
            if v.__class__ is Lazy:
                v = v.force()
            return v
    v = ldslow(p, n)
    if v.__class__ is Lazy:
        v = v.force()
    return v


def clear_range(o, f, n):
    """remove (splitting when needed) the cells overlapping [f, f+n)"""
    cells = o.cells
    for s in range(f - 7, f + n):
        c = cells.get(s)
        if c is None:
            continue
        sz = SIZES[c[0]]
        if s + sz <= f or s >= f + n:
            continue
        if s >= f and s + sz <= f + n:
            del cells[s]
            continue
        bs = to_bytes(c[0], c[1])
        del cells[s]
        for k in range(sz):
            if not f <= s + k < f + n:
                b = bs[k]
                cells[s + k] = (1, b if b is UNDEF else (b if b < 128 else b - 256))
        o.codes = 0


def st(p, v, code, n):
    if p.__class__ is not tuple:
        raise Violation("uninit", "uninitialised pointer dereferenced")
    o, f = p
    if v.__class__ is DBits:
        v = v.d
        code = 'd'
    if o.__class__ is not Obj or not o.alive or f < 0 or f + n > o.size or o.ro:
        if o.__class__ is Obj and o.ro and o.alive:
            raise Violation("memory", "write to read-only %r" % o)
        bad_access(o, f, n, "write")
    if o.codes != code:
        if o.codes is None and f % n == 0:
            o.codes = code
        else:
            c = o.cells.get(f)
            if c is None or SIZES[c[0]] != n:
                clear_range(o, f, n)
                o.codes = 0
            elif c[0] != code:
                o.codes = 0
    elif f % n:
        clear_range(o, f, n)
        o.codes = 0
    o.cells[f] = (code, v)


def gepx(p, k):
    return (p[0], p[1] + k)


def pcmp_eq(a, b):
    if a is UNDEF or b is UNDEF:
        raise Violation("uninit", "uninitialised pointer compared")
    x, y = a[0], b[0]
    if x.__class__ is FnRef and y.__class__ is FnRef:
        return x.name == y.name
    return x is y and a[1] == b[1]


def pcmp(a, b):
    if a[0] is not b[0]:
        x, y = ptr2int(a), ptr2int(b)
        return (x > y) - (x < y)
    return (a[1] > b[1]) - (a[1] < b[1])


def ptr2int(p):
    o, f = p
    if o is None:
        return f
    ctx = Ctx.cur
    k = ctx.addr.get(id(o))
    if k is None:
        k = 0x10000000 + 0x1000000 * len(ctx.addr)
        ctx.addr[id(o)] = k
        ctx.addr_rev[k] = o
    return k + f


def int2ptr(v):
    ctx = Ctx.cur
    if v >= 0x10000000:
        base = v - (v - 0x10000000) % 0x1000000
        o = ctx.addr_rev.get(base)
        if o is not None:
            return (o, v - base)
    return (None, v)


def d2bits(v):
    if v.__class__ is Lazy:
        v = v.force()
    if v is UNDEF or v.__class__ is Part:
        return v
    if v.__class__ is not float:
        return DBits(v)
    return struct.unpack('<q', struct.pack('<d', v))[0]


def bits2d(v):
    if v is UNDEF or v.__class__ is Part:
        return v
    if v.__class__ is DBits:
        return v.d
    return struct.unpack('<d', struct.pack('<q', v))[0]


def tofloat32(v):
    """rounding to single precision; of a symbolic value: v (1 + e), |e| <= 2^-24, e a fresh unknown"""
    if v.__class__ is Lazy:
        v = v.force()
    if v is UNDEF:
        return v
    if v.__class__ is float:
        try:
            return struct.unpack('<f', struct.pack('<f', v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    return Ctx.cur.round_symbol(v)


def alloca(size, n):
    o = Obj(size * n, "stack")
    STACK.append(o)
    return (o, 0)


def popstack(sp):
    while len(STACK) > sp:
        o = STACK.pop()
        o.alive = False


def byval_copy(p, n):
    q = alloca(n, 1)
    X_llvm_memcpy(q, p, n, 0)
    return q


def unreachable():
    raise Inconclusive("unreachable executed")


def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def ovf(v, n, nsw, op):
    if nsw:
        raise Violation("overflow", "signed integer overflow in %d-bit %s (%d)" % (n, op, v))
    return wrap(v, n)


def _tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def int_sdiv(a, b, n, nsw):
    if b == 0:
        raise Violation("div0", "integer division by zero")
    return wrap(_tdiv(a, b), n)


def int_srem(a, b, n, nsw):
    if b == 0:
        raise Violation("div0", "integer remainder by zero")
    return a - _tdiv(a, b) * b


def int_udiv(a, b, n, nsw):
    m = (1 << n) - 1
    if b == 0:
        raise Violation("div0", "integer division by zero")
    return wrap((a & m) // (b & m), n)


def int_urem(a, b, n, nsw):
    m = (1 << n) - 1
    if b == 0:
        raise Violation("div0", "integer remainder by zero")
    return wrap((a & m) % (b & m), n)


def int_shl(a, b, n, nsw):
    if not 0 <= b < n:
        raise Violation("shift", "shift amount out of range")
    return wrap(a << b, n)


def int_lshr(a, b, n, nsw):
    if not 0 <= b < n:
        raise Violation("shift", "shift amount out of range")
    return wrap((a & ((1 << n) - 1)) >> b, n)


def int_ashr(a, b, n, nsw):
    if not 0 <= b < n:
        raise Violation("shift", "shift amount out of range")
    return a >> b


def fmod_(a, b):
    if a.__class__ is float and b.__class__ is float:
        try:
            return math.fmod(a, b)
        except ValueError:
            return NAN
    raise Inconclusive("fmod of symbolic value")


def va_start(p, va):
    p[0].va = [list(va), 0]


def X_llvm_va_end(p):
    pass


def X_llvm_va_copy(d, s):
    d[0].va = [list(s[0].va[0]), s[0].va[1]]


# ------------------------------------------------------------------ heap
def X_malloc(n):
    n &= (1 << 64) - 1
    if n > (1 << 33):
        return NULL if n > (1 << 47) else (Obj(n, "heap", "malloc"), 0)
    o = Obj(n, "heap", "malloc")
    Ctx.cur.heap[id(o)] = o
    return (o, 0)


def X_calloc(a, b):
    a &= (1 << 64) - 1
    b &= (1 << 64) - 1
    if a * b >= (1 << 47):
        return NULL
    p = X_malloc(a * b)
    if p[0] is not None:
        p[0].zero = True
    return p


def X_div(a, b):
    q = int_sdiv(a, b, 32, True)
    r = int_srem(a, b, 32, True)
    return wrap((q & 0xffffffff) | (r & 0xffffffff) << 32, 64)


def X_ldiv(a, b):
    return (int_sdiv(a, b, 64, True), int_srem(a, b, 64, True))


X_lldiv = X_ldiv


def X_free(p):
    if p is UNDEF:
        raise Violation("uninit", "free of uninitialised pointer")
    o, f = p
    if o is None and f == 0:
        return
    if o.__class__ is not Obj or o.kind != "heap" or f != 0:
        raise Violation("memory", "free of an invalid pointer %r+%s" % (o, f))
    if not o.alive:
        raise Violation("memory", "double free of %r" % o)
    o.alive = False
    Ctx.cur.heap.pop(id(o), None)
    Ctx.cur.freed.append(o)       # keep ids unique


def X_realloc(p, n):
    n &= (1 << 64) - 1
    o, f = p
    if o is None:
        return X_malloc(n)
    if n == 0:
        X_free(p)
        return NULL
    if o.__class__ is not Obj or o.kind != "heap" or f != 0 or not o.alive:
        raise Violation("memory", "realloc of an invalid pointer %r" % o)
    q = X_malloc(n)
    if q[0] is None:
        return NULL
    m = min(n, o.size)
    q[0].zero = False
    copycells(q[0], 0, o, 0, m)
    X_free(p)
    return q


def X_reallocarray(p, a, b):
    return X_realloc(p, a * b)


def copycells(d, df, s, sf, n):
    if n <= 0:
        return
    if s.size == n and sf == 0 and not s.zero:
        items = list(s.cells.items())
        if s.codes == 0 or any(f + SIZES[c[0]] > n for f, c in items):
            items = None
    else:
        items = None
    if items is None:
        items = []
        cells = s.cells
        if s.codes and s.codes is not None:
            w = SIZES[s.codes]
        else:
            w = 1
        lim = sf + n
        if len(cells) * 2 < n:
            it = [f for f in cells if sf - 8 < f < lim]
            it.sort()
        else:
            it = [f for f in range(sf - 7, lim) if f in cells]
        for f in it:
            c = cells[f]
            sz = SIZES[c[0]]
            if f >= sf and f + sz <= lim:
                items.append((f - sf, c))
            elif f + sz > sf:
                bs = to_bytes(c[0], c[1])
                for k in range(sz):
                    if sf <= f + k < lim:
                        b = bs[k]
                        items.append((f + k - sf, (1, b if b is UNDEF or b < 128 else b - 256)))
    # clear destination
    if d.cells or d.zero:
        if d.zero and not s.zero and len(items) * 8 < n:
            # padding copied as undefined: give explicit bytes
            cov = set()
            for f, c in items:
                cov.update(range(f, f + SIZES[c[0]]))
            clear_range(d, df, n)
            for k in range(n):
                if k not in cov:
                    d.cells[df + k] = (1, UNDEF)
        else:
            if d.cells:
                if len(d.cells) < n:
                    for f in [f for f in d.cells if df - 8 < f < df + n]:
                        if f in d.cells:
                            c = d.cells[f]
                            if f >= df and f + SIZES[c[0]] <= df + n:
                                del d.cells[f]
                    clear_edges(d, df, n)
                else:
                    clear_range(d, df, n)
    code = None
    for f, c in items:
        d.cells[df + f] = c
        if code is None:
            code = c[0]
        elif code != c[0]:
            code = 0
    if items:
        if d.codes is None and code and df % SIZES[code] == 0:
            d.codes = code
        elif d.codes != code or (code and df % SIZES[code]):
            d.codes = 0
    if s.zero and not d.zero:
        # zero bytes not represented by cells
        cov = set()
        for f, c in items:
            cov.update(range(f, f + SIZES[c[0]]))
        k = 0
        while k < n:
            if k in cov:
                k += 1
                continue
            if (df + k) % 8 == 0 and k + 8 <= n and not any((k + q) in cov for q in range(8)):
                d.cells[df + k] = (8, 0)
                k += 8
            else:
                d.cells[df + k] = (1, 0)
                k += 1
        d.codes = 0


def clear_edges(o, f, n):
    for s in list(range(f - 7, f)) + list(range(max(f, f + n - 7), f + n)):
        c = o.cells.get(s)
        if c is not None and s + SIZES[c[0]] > f:
            clear_range(o, f, n)
            return


def chk(p, n, what):
    if p.__class__ is not tuple:
        raise Violation("uninit", "uninitialised pointer used")
    o, f = p
    if o.__class__ is not Obj or not o.alive or f < 0 or f + n > o.size:
        bad_access(o, f, n, what)
    return o, f


def X_llvm_memcpy(d, s, n, vol=0):
    n &= (1 << 64) - 1
    if n == 0:
        return d
    do, df = chk(d, n, "memcpy write")
    so, sf = chk(s, n, "memcpy read")
    if do is so:
        if df != sf and not (df + n <= sf or sf + n <= df):
            raise Violation("memory", "memcpy with overlapping ranges")
        t = Obj(n, "tmp")
        copycells(t, 0, so, sf, n)
        copycells(do, df, t, 0, n)
        return d
    copycells(do, df, so, sf, n)
    return d


def X_llvm_memmove(d, s, n, vol=0):
    n &= (1 << 64) - 1
    if n == 0:
        return d
    do, df = chk(d, n, "memmove write")
    so, sf = chk(s, n, "memmove read")
    t = Obj(n, "tmp")
    t.zero = so.zero
    copycells(t, 0, so, sf, n)
    if so.zero:
        t.zero = True
    copycells(do, df, t, 0, n)
    return d


def X_llvm_memset(d, c, n, vol=0):
    n &= (1 << 64) - 1
    if n == 0:
        return d
    o, f = chk(d, n, "memset")
    if c == 0 and f == 0 and n == o.size:
        o.cells = {}
        o.zero = True
        o.codes = None
        return d
    c = c if c < 128 else c - 256
    clear_range(o, f, n)
    for k in range(f, f + n):
        o.cells[k] = (1, c)
    o.codes = 0 if o.codes not in (None, 1) else 1
    return d


X_memcpy = X___memcpy_chk = X_llvm_memcpy
X_memmove = X_llvm_memmove
X_memset = X_llvm_memset


def X_llvm_abs(v, poison=0, bits=32):
    if v == -(1 << (bits - 1)):
        raise Violation("overflow", "abs(INT_MIN)")
    return abs(v)


def X_abs(v):
    return X_llvm_abs(v)


def X_llvm_smax(a, b, bits=32):
    return max(a, b)


def X_llvm_smin(a, b, bits=32):
    return min(a, b)


def X_llvm_umax(a, b, bits=32):
    m = (1 << bits) - 1
    return a if (a & m) >= (b & m) else b


def X_llvm_umin(a, b, bits=32):
    m = (1 << bits) - 1
    return a if (a & m) <= (b & m) else b


def X_llvm_trap():
    raise Violation("trap", "trap executed")


# ------------------------------------------------------------------ math
def X_llvm_fabs(a):
    return fabs_(a)


X_fabs = X_llvm_fabs


def X_sqrt(a):
    return fsqrt(a)


X_llvm_sqrt = X_sqrt


def X_llvm_is_fpclass(a, m):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        if a != a:
            return bool(m & 3)
        if a == INF:
            return bool(m & 512)
        if a == NINF:
            return bool(m & 4)
        if a == 0:
            return bool(m & (64 if math.copysign(1, a) > 0 else 32))
        sub = abs(a) < 2.2250738585072014e-308
        if a > 0:
            return bool(m & (128 if sub else 256))
        return bool(m & (16 if sub else 8))
    if a is UNDEF:
        raise Violation("uninit", "uninitialised double classified")
    fin = m & 504
    if fin == 504:
        return True
    if fin == 0:
        return False
    want = (NEG if m & 8 else 0) | (POS if m & 256 else 0) | (ZERO if m & 96 else 0)
    return a.test(want)


def X___isnan(a):
    return 1 if is_nan(a) else 0


X_isnan = X___isnan


def X_isinf(a):
    return 1 if is_inf(a) else 0


X___isinf = X_isinf


def X_finite(a):
    return 0 if is_nan(a) or is_inf(a) else 1


X___finite = X_finite


def X_signbit(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        return 1 if math.copysign(1, a) < 0 else 0
    return 1 if a.test(NEG) else 0


X___signbit = X_signbit


def X_hypot(a, b):
    if a.__class__ is Lazy:
        a = a.force()
    if b.__class__ is Lazy:
        b = b.force()
    if a.__class__ is float and b.__class__ is float:
        return math.hypot(a, b)
    if is_inf(a) or is_inf(b):
        return INF
    if is_nan(a) or is_nan(b):
        return NAN
    return fsqrt(a * a + b * b)


def X_fmin(a, b):
    if is_nan(a):
        return b
    if is_nan(b):
        return a
    return a if a < b else b


def X_fmax(a, b):
    if is_nan(a):
        return b
    if is_nan(b):
        return a
    return a if a > b else b


X_llvm_minnum = X_fmin
X_llvm_maxnum = X_fmax


def X_floor(a):
    return ffloor(a)


def X_ceil(a):
    return fceil(a)


X_llvm_floor = X_floor
X_llvm_ceil = X_ceil


def X_trunc(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        return float(math.trunc(a)) if a - a == 0 else a
    return float(Ctx.cur.choose_trunc(a))


X_llvm_trunc = X_trunc


def X_modf(a, p):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float and a - a != 0:
        st(p, a, 'd', 8)
        return math.copysign(0.0, a) if a == a else a
    t = X_trunc(a)
    st(p, t, 'd', 8)
    return a - t


def _conc(a, fn):
    if a.__class__ is Lazy:
        a = a.force()
    if a is UNDEF:
        raise Violation("uninit", "uninitialised double passed to " + fn)
    if a.__class__ is not float:
        raise Inconclusive(fn + " of a symbolic value")
    return a


def X_frexp(a, p):
    m, e = math.frexp(_conc(a, "frexp"))
    st(p, e, 4, 4)
    return m


def X_ilogb(a):
    return math.frexp(_conc(a, "ilogb"))[1] - 1


def X_logb(a):
    return float(X_ilogb(a))


def X_nextafter(a, b):
    return math.nextafter(_conc(a, "nextafter"), _conc(b, "nextafter"))


def X_remainder(a, b):
    a, b = _conc(a, "remainder"), _conc(b, "remainder")
    return math.remainder(a, b) if a - a == 0 and b == b and b != 0 else NAN


def X_nan(p):
    return NAN


def infsign(a):
    """the macro isinf()"""
    if a.__class__ is Lazy:
        a = a.force()
    return (1 if a == INF else -1 if a == NINF else 0) if a.__class__ is float else X_isinf(a)


def X_rint(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        return float(round(a)) if a - a == 0 else a
    f = ffloor(a)
    d = a - f
    if d < 0.5:
        return f
    if d > 0.5:
        return f + 1.0
    return f if f % 2 == 0 else f + 1.0


X_nearbyint = X_llvm_rint = X_llvm_nearbyint = X_rint


def X_round(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float and a - a != 0:
        return a
    if a >= 0.0:
        return ffloor(a + 0.5)
    return -ffloor(-a + 0.5)


X_llvm_round = X_round


def X_lround(a):
    return f2int(X_round(a), 64, True, "lround")


def X_lrint(a):
    return f2int(X_rint(a), 64, True, "lrint")


X_llround = X_llvm_lround = X_llvm_llround = X_lround
X_llrint = X_llvm_lrint = X_llvm_llrint = X_lrint


def X_llvm_copysign(a, b):
    if is_nan(a):
        return a
    return -fabs_(a) if X_signbit(b) else fabs_(a)


X_copysign = X_llvm_copysign


def X_llvm_fmuladd(a, b, c):
    return a * b + c


X_fma = X_llvm_fma = X_llvm_fmuladd


def X_pow(a, b):
    if b.__class__ is float and b == int(b) and abs(b) < 9 and a.__class__ is R:
        r = 1.0
        for _ in range(int(abs(b))):
            r = r * a
        return r if b >= 0 else fdiv(1.0, r)
    if a.__class__ is float and b.__class__ is float:
        try:
            return math.pow(a, b)
        except OverflowError:
            return INF
        except ValueError:
            return NAN
    raise Inconclusive("pow of symbolic value")


X_llvm_pow = X_pow


def X_llvm_powi(a, k, bits=32):
    return X_pow(a, float(k))


def _m1(name):
    fn = getattr(math, name)

    def f(a):
        if a.__class__ is Lazy:
            a = a.force()
        if a.__class__ is R and not a.f:
            a = a.c.numerator / a.c.denominator
        if a.__class__ is float:
            try:
                return fn(a)
            except ValueError:
                return NAN
            except OverflowError:
                return INF
        return Ctx.cur.ufun(name, a)
    return f


for _n in ("acos", "asin", "atan", "cos", "sin", "tan", "exp", "log", "log10", "cosh", "sinh", "tanh", "log2", "log1p", "exp2", "expm1", "cbrt", "asinh", "acosh", "atanh"):
    globals()["X_" + _n] = _m1(_n)
    globals()["X_llvm_" + _n] = globals()["X_" + _n]


def X_atan2(a, b):
    if a.__class__ is Lazy:
        a = a.force()
    if b.__class__ is Lazy:
        b = b.force()
    if a.__class__ is R and not a.f:
        a = a.c.numerator / a.c.denominator
    if b.__class__ is R and not b.f:
        b = b.c.numerator / b.c.denominator
    if a.__class__ is float and b.__class__ is float:
        return math.atan2(a, b)
    raise Inconclusive("atan2 of symbolic values")


def X_srand48(seed):
    Ctx.cur.rand48 = ((seed & 0xffffffff) << 16) | 0x330E


def _next48():
    c = Ctx.cur
    c.rand48 = (c.rand48 * 0x5DEECE66D + 0xB) & ((1 << 48) - 1)
    return c.rand48


def X_drand48():
    return _next48() / float(1 << 48)


def X_lrand48():
    return _next48() >> 17


def X_mrand48():
    return wrap(_next48() >> 16, 32)


def X_srand(s):
    pass


def X_rand():
    return _next48() >> 17


X_random = X_rand
X_srandom = X_srand


# ------------------------------------------------------------------ strings
def rdbyte(p):
    v = ldi(p, 1)
    if v is UNDEF:
        raise Violation("uninit", "uninitialised byte read by a string function")
    return v & 255


def cstring(p, limit=None):
    """python bytes of the C string at p"""
    if p.__class__ is not tuple:
        raise Violation("uninit", "uninitialised pointer used as a string")
    o, f = p
    if o is None or o.__class__ is not Obj:
        bad_access(o, f, 1, "string read")
    out = bytearray()
    if not o.alive:
        bad_access(o, f, 1, "string read")
    cells = o.cells
    while limit is None or len(out) < limit:
        c = cells.get(f)
        if c is not None and c[0] == 1 and f < o.size and c[1] is not UNDEF:
            b = c[1] & 255
        else:
            b = rdbyte((o, f))
        if b == 0:
            break
        out.append(b)
        f += 1
    return bytes(out)


def putstr(p, b, nul=True):
    o, f = p
    n = len(b) + (1 if nul else 0)
    chk(p, n, "string write")
    if o.ro:
        raise Violation("memory", "write to read-only %r" % o)
    if o.codes not in (None, 1):
        clear_range(o, f, n)
    cells = o.cells
    for i, x in enumerate(b):
        cells[f + i] = (1, x if x < 128 else x - 256)
    if nul:
        cells[f + len(b)] = (1, 0)
    if o.codes is None:
        o.codes = 1
    elif o.codes != 1:
        o.codes = 0


def X_strlen(p):
    return len(cstring(p))


def _cmp(a, b):
    return (a > b) - (a < b)


def X_strcmp(a, b):
    return _cmp(cstring(a), cstring(b))


def X_strncmp(a, b, n):
    return _cmp(cstring(a, n), cstring(b, n))


def X_strcasecmp(a, b):
    return _cmp(cstring(a).lower(), cstring(b).lower())


def X_strncasecmp(a, b, n):
    return _cmp(cstring(a, n).lower(), cstring(b, n).lower())


def X_memcmp(a, b, n):
    if n == 0:
        return 0
    ao, af = chk(a, n, "memcmp read")
    bo, bf = chk(b, n, "memcmp read")
    x = get_bytes(ao, af, n)
    y = get_bytes(bo, bf, n)
    for u, v in zip(x, y):
        if u is UNDEF or v is UNDEF:
            raise Violation("uninit", "memcmp of uninitialised bytes")
        if u != v:
            return -1 if u < v else 1
    return 0


X_bcmp = X_memcmp


def X_strcpy(d, s):
    putstr(d, cstring(s))
    return d


def X_strncpy(d, s, n):
    b = cstring(s, n)
    putstr(d, b + bytes(n - len(b)), False)
    return d


def X_strcat(d, s):
    b = cstring(s)
    k = len(cstring(d))
    putstr((d[0], d[1] + k), b)
    return d


def X_strncat(d, s, n):
    b = cstring(s, n)
    k = len(cstring(d))
    putstr((d[0], d[1] + k), b)
    return d


def X_strdup(s):
    b = cstring(s)
    p = X_malloc(len(b) + 1)
    putstr(p, b)
    return p


X___strdup = X_strdup


def X_strchr(s, c):
    b = cstring(s) + b"\0"
    k = b.find(bytes([c & 255]))
    return NULL if k < 0 else (s[0], s[1] + k)


def X_strrchr(s, c):
    b = cstring(s) + b"\0"
    k = b.rfind(bytes([c & 255]))
    return NULL if k < 0 else (s[0], s[1] + k)


def X_strstr(s, t):
    k = cstring(s).find(cstring(t))
    return NULL if k < 0 else (s[0], s[1] + k)


def X_strspn(s, t):
    b = cstring(s)
    t = cstring(t)
    k = 0
    while k < len(b) and b[k] in t:
        k += 1
    return k


def X_strcspn(s, t):
    b = cstring(s)
    t = cstring(t)
    k = 0
    while k < len(b) and b[k] not in t:
        k += 1
    return k


def X_strpbrk(s, t):
    k = X_strcspn(s, t)
    return NULL if k == len(cstring(s)) else (s[0], s[1] + k)


def X_memchr(s, c, n):
    for k in range(n):
        if rdbyte((s[0], s[1] + k)) == c & 255:
            return (s[0], s[1] + k)
    return NULL


def X_strtok(s, seps):
    ctx = Ctx.cur
    if s[0] is None:
        s = ctx.strtok
    if s is None or s[0] is None:
        return NULL
    b = cstring(s)
    t = cstring(seps)
    k = 0
    while k < len(b) and b[k] in t:
        k += 1
    if k == len(b):
        ctx.strtok = None
        return NULL
    e = k
    while e < len(b) and b[e] not in t:
        e += 1
    if e < len(b):
        st((s[0], s[1] + e), 0, 1, 1)
        ctx.strtok = (s[0], s[1] + e + 1)
    else:
        ctx.strtok = None
    return (s[0], s[1] + k)


SPACE = b" \t\n\v\f\r"


def _isx(fn):
    def f(c):
        if c == -1:
            return 0
        if not -128 <= c <= 255:
            raise Violation("memory", "ctype function on out-of-range value %d" % c)
        c &= 255
        return 1 if c < 128 and fn(chr(c)) else 0
    return f


X_isspace = _isx(lambda c: c in " \t\n\v\f\r")
X_isdigit = _isx(lambda c: "0" <= c <= "9")
X_isalpha = _isx(lambda c: c.isalpha())
X_isalnum = _isx(lambda c: c.isalnum())
X_isupper = _isx(lambda c: c.isupper())
X_islower = _isx(lambda c: c.islower())
X_ispunct = _isx(lambda c: 32 < ord(c) < 127 and not c.isalnum())
X_isprint = _isx(lambda c: 32 <= ord(c) < 127)
X_isxdigit = _isx(lambda c: c in "0123456789abcdefABCDEF")


def X_tolower(c):
    return c + 32 if 65 <= c <= 90 else c


def X_toupper(c):
    return c - 32 if 97 <= c <= 122 else c


def X___ctype_b_loc():
    ctx = Ctx.cur
    if ctx.ctypetab is None:
        o = Obj(384 * 2, "global", "ctype")
        for c in range(-128, 256):
            m = 0
            if 0 <= c < 128:
                ch = chr(c)
                if ch.isupper():
                    m |= 256
                if ch.islower():
                    m |= 512
                if ch.isalpha():
                    m |= 1024
                if ch.isdigit():
                    m |= 2048
                if ch in "0123456789abcdefABCDEF":
                    m |= 4096
                if ch in " \t\n\v\f\r":
                    m |= 8192
                if 32 <= c < 127:
                    m |= 16384
                if 32 < c < 127:
                    m |= 32768
                if ch in " \t":
                    m |= 1
                if c < 32 or c == 127:
                    m |= 2
                if 32 < c < 127 and not ch.isalnum():
                    m |= 4
                if ch.isalnum():
                    m |= 8
            o.cells[(c + 128) * 2] = (2, wrap(m, 16))
        o.ro = True
        q = Obj(8, "global", "ctypeptr")
        q.cells[0] = ('p', (o, 256))
        q.ro = True
        ctx.ctypetab = (q, 0)
    return ctx.ctypetab


# numbers in text; symbolic doubles appear as tokens \x01<id>\x02
TOKRE = re.compile(rb'\x01(\d+)\x02')
NUMRE = re.compile(rb'[-+]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][-+]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)')
NANRE = re.compile(rb'([-+]?)(?:(nan)(?:\([a-zA-Z0-9_]*\))?|(infinity|inf))', re.I)


def scan_double(b, i):
    """returns (value, end) or None"""
    m = TOKRE.match(b, i)
    if m:
        return Ctx.cur.tokens[int(m.group(1))], m.end()
    m = NANRE.match(b, i)
    if m:
        if m.group(2):
            return (-NAN if m.group(1) == b'-' else NAN), m.end()
        return (NINF if m.group(1) == b'-' else INF), m.end()
    m = NUMRE.match(b, i)
    if not m:
        return None
    t = m.group(0).decode()
    if 'x' in t.lower():
        return float.fromhex(t), m.end()
    return float(t), m.end()


INTRE = re.compile(rb'[-+]?\d+')


def X_strtod(p, endp):
    b = cstring(p)
    i = 0
    while i < len(b) and b[i] in SPACE:
        i += 1
    r = scan_double(b, i)
    if r is None:
        if endp[0] is not None:
            st(endp, p, 'p', 8)
        return 0.0
    if endp[0] is not None:
        st(endp, (p[0], p[1] + r[1]), 'p', 8)
    return r[0]


def X_atof(p):
    return X_strtod(p, NULL)


def X_strtol(p, endp, base):
    b = cstring(p)
    i = 0
    while i < len(b) and b[i] in SPACE:
        i += 1
    if base in (10, 0):
        m = INTRE.match(b, i)
        if base == 0 and re.match(rb'[-+]?0[xX0-7]', b[i:]):
            raise Inconclusive("strtol base 0")
    elif base == 16:
        m = re.compile(rb'[-+]?(?:0[xX])?[0-9a-fA-F]+').match(b, i)
    else:
        raise Inconclusive("strtol base")
    if not m:
        if endp[0] is not None:
            st(endp, p, 'p', 8)
        return 0
    if endp[0] is not None:
        st(endp, (p[0], p[1] + m.end()), 'p', 8)
    v = int(m.group(0), base or 10)
    if v > (1 << 63) - 1 or v < -(1 << 63):
        Ctx.cur.set_errno(34)
    return max(-(1 << 63), min((1 << 63) - 1, v))


X_strtoll = X___isoc23_strtol = X___isoc23_strtoll = X_strtol


def X_strtoul(p, endp, base):
    return wrap(X_strtol(p, endp, base), 64)


def X_atoi(p):
    return wrap(X_strtol(p, NULL, 10), 32)


def X_atol(p):
    return X_strtol(p, NULL, 10)


def fmt_double(spec, conv, v):
    if v.__class__ is Lazy:
        v = v.force()
    if v is UNDEF:
        raise Violation("uninit", "uninitialised double printed")
    if v.__class__ is float:
        if v != v:
            s = "nan"
            if math.copysign(1, v) < 0:
                s = "-nan"
            if conv.isupper():
                s = s.upper()
            if "+" in spec and not s.startswith("-"):
                s = "+" + s
            w = re.sub(r'[^0-9.]', '', spec).split('.')[0]
            return s.rjust(int(w)).encode() if w else s.encode()
        return (("%" + spec + conv) % v).encode()
    ctx = Ctx.cur
    ctx.tokens.append(v)
    return b"\x01%d\x02" % (len(ctx.tokens) - 1)


FMTRE = re.compile(rb'%([-+ #0]*)(\*|\d*)(?:\.(\*|-?\d*))?(hh|h|ll|l|L|z|j|t|q)?([a-zA-Z%])')


def c_format(fmt, args):
    """python bytes for printf(fmt, args)"""
    out = bytearray()
    i = 0
    ai = 0

    def nxt():
        nonlocal ai
        if ai >= len(args):
            raise Violation("format", "too few arguments for format")
        v = args[ai]
        ai += 1
        return v
    while i < len(fmt):
        j = fmt.find(b'%', i)
        if j < 0:
            out += fmt[i:]
            break
        out += fmt[i:j]
        m = FMTRE.match(fmt, j)
        if not m:
            raise Inconclusive("printf format %r" % fmt)
        i = m.end()
        fl, wd, pr, ln, cv = [x.decode() if x is not None else None for x in m.groups()]
        if cv == '%':
            out += b'%'
            continue
        if wd == '*':
            w = nxt()
            wd = str(abs(w))
            if w < 0:
                fl += '-'
        if pr == '*':
            w = nxt()
            pr = str(w) if w >= 0 else None
        spec = fl + (wd or '') + ('.' + (pr or '0') if pr is not None else '')
        v = nxt()
        if cv in 'di':
            if v.__class__ is not int and v.__class__ is not bool:
                if v is UNDEF:
                    raise Violation("uninit", "uninitialised integer printed")
                raise Violation("format", "integer conversion of a %s argument" % type(v).__name__)
            out += (("%" + spec + "d") % v).encode()
        elif cv in 'uxXo':
            if v.__class__ is not int and v.__class__ is not bool:
                raise Violation("format", "integer conversion of a non-integer")
            n = 64 if ln in ('l', 'll', 'z', 'j', 't') else 32
            v &= (1 << n) - 1
            out += (("%" + spec + {'u': 'd'}.get(cv, cv)) % v).encode()
        elif cv in 'fFgGeEaA':
            if v.__class__ is int or v.__class__ is tuple:
                raise Violation("format", "double conversion of a non-double")
            if cv in 'aA':
                out += v.hex().encode()
            else:
                out += fmt_double(spec, cv, v)
        elif cv == 's':
            if v.__class__ is not tuple:
                raise Violation("format", "string conversion of a non-pointer")
            if v[0] is None and v[1] == 0:
                raise Violation("memory", "null pointer printed with %s")
            s = cstring(v, int(pr) if pr is not None else None)
            if wd:
                s = s.ljust(int(wd)) if '-' in fl else s.rjust(int(wd))
            out += s
        elif cv == 'c':
            out += bytes([v & 255])
        elif cv == 'p':
            out += b"0x%x" % ptr2int(v)
        elif cv == 'n':
            st(v, len(out), 4, 4)
        else:
            raise Inconclusive("printf conversion %s" % cv)
    return bytes(out)


# ------------------------------------------------------------------ stdio
class VFile:
    def __init__(self, path, mode, data):
        self.path = path
        self.mode = mode
        self.data = data      # bytearray (shared with the vfs for writers)
        self.pos = 0
        self.eof = False
        self.open = True
        self.err = False
        self.unget = None


def fileof(p, what):
    if p.__class__ is not tuple:
        raise Violation("uninit", "uninitialised stream")
    o = p[0]
    if o.__class__ is VFile:
        if not o.open:
            raise Violation("memory", "%s on a closed stream" % what)
        return o
    raise Violation("memory", "%s on an invalid stream" % what)


def X_fopen(path, mode):
    ctx = Ctx.cur
    name = cstring(path)
    m = cstring(mode)
    if m[:1] == b'r':
        d = ctx.vfs.get(name)
        if d is None:
            ctx.set_errno(2)
            return NULL
        f = VFile(name, m, d)
    elif m[:1] == b'w':
        d = ctx.vfs[name] = bytearray()
        f = VFile(name, m, d)
    else:
        d = ctx.vfs.setdefault(name, bytearray())
        f = VFile(name, m, d)
        f.pos = len(d)
    ctx.nopen += 1
    ctx.files.append(f)
    return (f, 0)


X_fopen64 = X_fopen


def X_fclose(p):
    f = fileof(p, "fclose")
    f.open = False
    Ctx.cur.nopen -= 1
    return 0


def X_fflush(p):
    if p[0] is not None:
        fileof(p, "fflush")
    return 0


def X_fgets(buf, n, p):
    f = fileof(p, "fgets")
    if n <= 0:
        return NULL
    if f.pos >= len(f.data):
        f.eof = True
        return NULL
    lim = f.pos + n - 1
    k = f.data.find(b'\n', f.pos, lim)
    e = k + 1 if k >= 0 else min(lim, len(f.data))
    b = bytes(f.data[f.pos:e])
    f.pos = e
    if k < 0 and e >= len(f.data):
        f.eof = True
    putstr(buf, b)
    return buf


def X_fgetc(p):
    f = fileof(p, "fgetc")
    if f.pos >= len(f.data):
        f.eof = True
        return -1
    f.pos += 1
    return f.data[f.pos - 1]


X_getc = X__IO_getc = X_fgetc


def X_getchar():
    return X_fgetc((Ctx.cur.stdin, 0))


def X_ungetc(c, p):
    f = fileof(p, "ungetc")
    if c == -1:
        return -1
    f.pos -= 1
    f.eof = False
    return c


def X_getline(lp, np_, p):
    f = fileof(p, "getline")
    if f.pos >= len(f.data):
        f.eof = True
        return -1
    k = f.data.find(b'\n', f.pos)
    e = k + 1 if k >= 0 else len(f.data)
    b = bytes(f.data[f.pos:e])
    f.pos = e
    cur = ldp(lp)
    need = len(b) + 1
    if cur[0] is None or cur[0].size < need:
        if cur[0] is not None:
            X_free(cur)
        cur = X_malloc(max(need, 120))
        st(lp, cur, 'p', 8)
        st(np_, cur[0].size, 8, 8)
    putstr(cur, b)
    return len(b)


def X_feof(p):
    return 1 if fileof(p, "feof").eof else 0


def X_ferror(p):
    return 0


def X_clearerr(p):
    fileof(p, "clearerr").eof = False


def X_rewind(p):
    f = fileof(p, "rewind")
    f.pos = 0
    f.eof = False


def X_fseek(p, off, wh):
    f = fileof(p, "fseek")
    f.pos = off if wh == 0 else (f.pos + off if wh == 1 else len(f.data) + off)
    f.eof = False
    return 0


def X_ftell(p):
    return fileof(p, "ftell").pos


def fwrite_bytes(f, b):
    if f.mode[:1] == b'r' and b'+' not in f.mode:
        return
    f.data[f.pos:f.pos + len(b)] = b
    f.pos += len(b)


def X_fprintf(p, fmt, *args):
    f = fileof(p, "fprintf")
    b = c_format(cstring(fmt), args)
    fwrite_bytes(f, b)
    return len(b)


def X___fprintf_chk(p, flag, fmt, *args):
    return X_fprintf(p, fmt, *args)


def X_printf(fmt, *args):
    b = c_format(cstring(fmt), args)
    fwrite_bytes(Ctx.cur.stdout, b)
    return len(b)


def X___printf_chk(flag, fmt, *args):
    return X_printf(fmt, *args)


def X_vfprintf(p, fmt, va):
    f = fileof(p, "vfprintf")
    v = va[0].va
    b = c_format(cstring(fmt), v[0][v[1]:])
    fwrite_bytes(f, b)
    return len(b)


def X_vprintf(fmt, va):
    return X_vfprintf((Ctx.cur.stdout, 0), fmt, va)


def X_vsnprintf(d, n, fmt, va):
    v = va[0].va
    b = c_format(cstring(fmt), v[0][v[1]:])
    if n > 0:
        putstr(d, b[:n - 1])
    return len(b)


def X_snprintf(d, n, fmt, *args):
    b = c_format(cstring(fmt), args)
    if n > 0:
        putstr(d, b[:n - 1])
    return len(b)


def X_sprintf(d, fmt, *args):
    b = c_format(cstring(fmt), args)
    putstr(d, b)
    return len(b)


def X_puts(s):
    fwrite_bytes(Ctx.cur.stdout, cstring(s) + b"\n")
    return 1


def X_putchar(c):
    fwrite_bytes(Ctx.cur.stdout, bytes([c & 255]))
    return c


def X_fputs(s, p):
    fwrite_bytes(fileof(p, "fputs"), cstring(s))
    return 1


def X_fputc(c, p):
    fwrite_bytes(fileof(p, "fputc"), bytes([c & 255]))
    return c & 255


X_putc = X_fputc


def X_fwrite(p, sz, n, fp):
    f = fileof(fp, "fwrite")
    k = sz * n
    if k:
        o, off = chk(p, k, "fwrite read")
        fwrite_bytes(f, bytes(get_bytes(o, off, k)))
    return n


def X_fread(p, sz, n, fp):
    f = fileof(fp, "fread")
    k = min(sz * n, len(f.data) - f.pos)
    putstr(p, bytes(f.data[f.pos:f.pos + k]), False)
    f.pos += k
    if k < sz * n:
        f.eof = True
    return k // sz if sz else 0


SCANRE = re.compile(rb'%(\*?)(\d*)(hh|h|ll|l|L|z|j)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])')


def c_scan(b, fmt, args, pos0=0):
    i = pos0
    n = 0
    fi = 0
    args = list(args)
    n_b = len(b)
    while fi < len(fmt):
        c = fmt[fi]
        if c in SPACE:
            while i < n_b and b[i] in SPACE:
                i += 1
            fi += 1
            continue
        if c != 37:
            if i >= n_b:
                return (n if n or n_b > i else -1) if n else (-1 if i >= n_b else 0), i
            if b[i] != c:
                return n, i
            i += 1
            fi += 1
            continue
        m = SCANRE.match(fmt, fi)
        if not m:
            raise Inconclusive("scanf format %r" % fmt)
        fi = m.end()
        sup, wd, ln, cv = m.groups()
        w = int(wd) if wd else None
        if cv == b'%':
            while i < n_b and b[i] in SPACE:
                i += 1
            if i < n_b and b[i] == 37:
                i += 1
                continue
            return n, i
        if cv not in (b'c', b'n') and cv[:1] != b'[':
            while i < n_b and b[i] in SPACE:
                i += 1
        if cv == b'n':
            st(args.pop(0), i - pos0, 4, 4)
            continue
        if i >= n_b:
            return (n if n else -1), i
        lim = n_b if w is None else min(n_b, i + w)
        if cv in (b'f', b'g', b'e', b'F', b'G', b'E', b'a'):
            r = scan_double(b[:lim], i)
            if r is None:
                return n, i
            i = r[1]
            if not sup:
                if ln == b'l':
                    st(args.pop(0), r[0], 'd', 8)
                else:
                    st(args.pop(0), tofloat32(r[0]), 'f', 4)
                n += 1
        elif cv in (b'd', b'i', b'u'):
            mm = INTRE.match(b[:lim], i)
            if not mm:
                return n, i
            i = mm.end()
            if not sup:
                k = 8 if ln in (b'l', b'll', b'z', b'j') else (2 if ln == b'h' else (1 if ln == b'hh' else 4))
                v = max(-(1 << 63), min((1 << 63) - 1, int(mm.group(0))))
                st(args.pop(0), wrap(v, 8 * k), k, k)
                n += 1
        elif cv == b's':
            e = i
            while e < lim and b[e] not in SPACE:
                e += 1
            if not sup:
                putstr(args.pop(0), b[i:e])
                n += 1
            i = e
        elif cv == b'c':
            k = w or 1
            if not sup:
                putstr(args.pop(0), b[i:i + k], False)
                n += 1
            i += k
        elif cv[:1] == b'[':
            body = cv[1:-1]
            negs = body[:1] == b'^'
            if negs:
                body = body[1:]
            st_ = set()
            q = 0
            while q < len(body):
                if q + 2 < len(body) and body[q + 1] == 45:
                    st_.update(range(body[q], body[q + 2] + 1))
                    q += 3
                else:
                    st_.add(body[q])
                    q += 1
            e = i
            while e < lim and ((b[e] in st_) != negs):
                e += 1
            if e == i:
                return n, i
            if not sup:
                putstr(args.pop(0), b[i:e])
                n += 1
            i = e
        else:
            raise Inconclusive("scanf conversion %r" % cv)
    return n, i


def X_sscanf(s, fmt, *args):
    return c_scan(cstring(s), cstring(fmt), args)[0]


X___isoc99_sscanf = X___isoc23_sscanf = X_sscanf


def X_fscanf(p, fmt, *args):
    f = fileof(p, "fscanf")
    n, e = c_scan(bytes(f.data), cstring(fmt), args, f.pos)
    f.pos = e
    if e >= len(f.data):
        f.eof = True
    return n


X___isoc99_fscanf = X___isoc23_fscanf = X_fscanf


def X_perror(p):
    pass


def X_strerror(n):
    o = Obj(32, "global", "strerror")
    putstr((o, 0), b"error %d" % n)
    return (o, 0)


def X___errno_location():
    return Ctx.cur.errno_ptr()


def X_exit(code):
    raise ExitC(code)


X__exit = X_exit


def X_abort():
    raise Violation("abort", "abort() called")


def X___assert_fail(a, b, c, d):
    raise Violation("assert", "assertion failed: %s" % cstring(a).decode())


def X_getenv(p):
    return NULL


def X_remove(p):
    return 0 if Ctx.cur.vfs.pop(cstring(p), None) is not None else -1


X_unlink = X_remove


def X_qsort(base, n, sz, cmp):
    o, f = chk(base, max(n * sz, 1), "qsort") if n else (None, 0)
    # insertion sort through the user's comparison
    for i in range(1, n):
        j = i
        while j > 0:
            a = (o, f + (j - 1) * sz)
            b = (o, f + j * sz)
            if call_indirect(cmp, a, b) > 0:
                t = Obj(sz, "tmp")
                copycells(t, 0, o, a[1], sz)
                t2 = Obj(sz, "tmp")
                copycells(t2, 0, o, b[1], sz)
                copycells(o, a[1], t2, 0, sz)
                copycells(o, b[1], t, 0, sz)
                j -= 1
            else:
                break


def X_time(p):
    return 0


def X_atexit(p):
    return 0


def call_indirect(p, *args):
    if p.__class__ is not tuple or p[0].__class__ is not FnRef:
        raise Violation("memory", "call through an invalid function pointer")
    fn = Ctx.cur.program.fn(p[0].name)
    return fn(*args)


# ------------------------------------------------------------------ harness intrinsics
def X_vh_real(lo, hi, name):
    return Ctx.cur.new_real(lo, hi, cstring(name).decode())


def X_vh_int(lo, hi, name):
    return Ctx.cur.new_int(lo, hi, cstring(name).decode())


def X_vh_maybe_nan(x, name):
    return Ctx.cur.new_lazy([x, NAN], cstring(name).decode())


def X_vh_assume(c):
    if not c:
        raise Infeasible("assumption")


def X_vh_check(c, name):
    n = cstring(name).decode()
    ctx = Ctx.cur
    ctx.checks[n] = ctx.checks.get(n, 0) + 1
    if not c:
        raise Violation("check", n)


def X_vh_note(name, x):
    Ctx.cur.notes.append((cstring(name).decode(), x))


def X_vh_live():
    return len(Ctx.cur.heap)


def X_vh_files():
    return Ctx.cur.nopen


def _restore(ctx, sp, snap):
    popstack(sp)


def X_vh_try(fn, arg):
    sp = len(STACK)
    try:
        call_indirect(fn, arg)
        return 0
    except ExitC as e:
        popstack(sp)
        return 1


def X_vh_main(fn, argc, argv, inp, outp, errp):
    """run a program: fresh copy of the globals, captured streams; returns the exit status"""
    ctx = Ctx.cur
    sp = len(STACK)
    snap = ctx.program.snapshot_globals()
    old = (ctx.stdin, ctx.stdout, ctx.stderr)
    ctx.program.reset_globals()
    d = bytearray() if inp[0] is None else ctx.vfs.get(cstring(inp))
    if d is None:
        raise Inconclusive("vh_main: no such input file")
    ob = ctx.vfs[cstring(outp)] = bytearray()
    eb = ctx.vfs[cstring(errp)] = bytearray()
    ctx.stdin = VFile(b"stdin", b"r", d)
    ctx.stdout = VFile(b"stdout", b"w", ob)
    ctx.stderr = VFile(b"stderr", b"w", eb)
    ctx.program.bind_std()
    try:
        rc = call_indirect(fn, argc, argv)
    except ExitC as e:
        rc = e.code
        popstack(sp)
    finally:
        ctx.stdin, ctx.stdout, ctx.stderr = old
    ctx.program.restore_globals(snap)
    ctx.program.bind_std()
    return rc & 255


def X_vh_capture_begin(errp):
    ctx = Ctx.cur
    ctx.cap.append((ctx.stdout, ctx.stderr))
    eb = ctx.vfs[cstring(errp)] = bytearray()
    f = VFile(b"cap", b"w", eb)
    ctx.stdout = ctx.stderr = f
    ctx.program.bind_std()


def X_vh_capture_end():
    ctx = Ctx.cur
    ctx.stdout, ctx.stderr = ctx.cap.pop()
    ctx.program.bind_std()


def X_vh_same(a, b):
    """bit-identical doubles (all NaNs alike)"""
    if a.__class__ is Lazy:
        a = a.force()
    if b.__class__ is Lazy:
        b = b.force()
    if is_nan(a) or is_nan(b):
        return 1 if is_nan(a) and is_nan(b) else 0
    return 1 if a == b else 0


def X_vh_checkpoint():
    Ctx.cur.checkpoint()


def X_vh_tol(t):
    return t


# less common functions, so that a rewrite of the code which uses them still can be decided
def X_strtok_r(s, seps, save):
    if s[0] is None:
        s = ldp(save)
    if s[0] is None:
        return NULL
    b = cstring(s)
    t = cstring(seps)
    k = 0
    while k < len(b) and b[k] in t:
        k += 1
    e = k
    while e < len(b) and b[e] not in t:
        e += 1
    if e < len(b):
        st((s[0], s[1] + e), 0, 1, 1)
        st(save, (s[0], s[1] + e + 1), 'p', 8)
    else:
        st(save, (s[0], s[1] + e), 'p', 8)
    return NULL if k == e else (s[0], s[1] + k)


def X_strsep(sp, seps):
    s = ldp(sp)
    if s[0] is None:
        return NULL
    b = cstring(s)
    t = cstring(seps)
    e = 0
    while e < len(b) and b[e] not in t:
        e += 1
    if e < len(b):
        st((s[0], s[1] + e), 0, 1, 1)
        st(sp, (s[0], s[1] + e + 1), 'p', 8)
    else:
        st(sp, NULL, 'p', 8)
    return s


def X_stpcpy(d, s):
    b = cstring(s)
    putstr(d, b)
    return (d[0], d[1] + len(b))


def X_strnlen(s, n):
    return len(cstring(s, n))


def X_strndup(s, n):
    b = cstring(s, n)
    p = X_malloc(len(b) + 1)
    putstr(p, b)
    return p


X___strndup = X_strndup


def X_mempcpy(d, s, n):
    X_llvm_memcpy(d, s, n)
    return (d[0], d[1] + n)


def X_memrchr(s, c, n):
    for k in range(n - 1, -1, -1):
        if rdbyte((s[0], s[1] + k)) == c & 255:
            return (s[0], s[1] + k)
    return NULL


def X_memmem(a, n, b, m):
    x = bytes(rdbyte((a[0], a[1] + k)) & 255 for k in range(n))
    y = bytes(rdbyte((b[0], b[1] + k)) & 255 for k in range(m))
    k = x.find(y)
    return NULL if k < 0 else (a[0], a[1] + k)


X_index = X_strchr
X_rindex = X_strrchr
X_strcoll = X_strcmp


def X_strchrnul(s, c):
    b = cstring(s)
    k = (b + b"\0").find(bytes([c & 255]))
    return (s[0], s[1] + (len(b) if k < 0 else k))


def X_strcasestr(s, t):
    k = cstring(s).lower().find(cstring(t).lower())
    return NULL if k < 0 else (s[0], s[1] + k)


def X_bzero(d, n):
    X_llvm_memset(d, 0, n)


def X_bcopy(s, d, n):
    X_llvm_memmove(d, s, n)


X_isblank = _isx(lambda c: c in " \t")
X_iscntrl = _isx(lambda c: ord(c) < 32 or ord(c) == 127)
X_isgraph = _isx(lambda c: 32 < ord(c) < 127)


def X_labs(v):
    return X_llvm_abs(v, 0, 64)


X_llabs = X_imaxabs = X_labs


def X_fmod(a, b):
    return fmod_(a, b)


def X_fdim(a, b):
    return a - b if a > b else (0.0 if a <= b else NAN)


def X_ldexp(a, k):
    return a * float(2.0 ** k)


X_scalbn = X_scalbln = X_ldexp


def X_strtof(p, endp):
    return tofloat32(X_strtod(p, endp))


def X_atoll(p):
    return X_strtol(p, NULL, 10)


X_strtoull = X___isoc23_strtoul = X___isoc23_strtoull = X_strtoul


def X_bsearch(key, base, n, sz, cmp):
    lo, hi = 0, n
    while lo < hi:
        m = (lo + hi) // 2
        q = (base[0], base[1] + m * sz)
        r = call_indirect(cmp, key, q)
        if r == 0:
            return q
        if r < 0:
            hi = m
        else:
            lo = m + 1
    return NULL


def X_vsprintf(d, fmt, va):
    v = va[0].va
    b = c_format(cstring(fmt), v[0][v[1]:])
    putstr(d, b)
    return len(b)


def X_asprintf(dp, fmt, *args):
    b = c_format(cstring(fmt), args)
    p = X_malloc(len(b) + 1)
    putstr(p, b)
    st(dp, p, 'p', 8)
    return len(b)


def X_vasprintf(dp, fmt, va):
    v = va[0].va
    return X_asprintf(dp, fmt, *v[0][v[1]:])


def X_vsscanf(s, fmt, va):
    v = va[0].va
    return X_sscanf(s, fmt, *v[0][v[1]:])


X___isoc99_vsscanf = X___isoc23_vsscanf = X_vsscanf


def X_setvbuf(p, b, m, n):
    fileof(p, "setvbuf")
    return 0


def X_setbuf(p, b):
    fileof(p, "setbuf")


X_fseeko = X_fseek
X_ftello = X_ftell
X_getc_unlocked = X_fgetc_unlocked = X_fgetc
X_putc_unlocked = X_fputc
X_fputs_unlocked = X_fputs
X_fgets_unlocked = X_fgets


def X_getdelim(lp, np_, d, p):
    if d == 10:
        return X_getline(lp, np_, p)
    raise Inconclusive("getdelim")


def X_clock():
    return 0
