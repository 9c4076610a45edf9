"""Symbolic real arithmetic for gusym.

Values of C type double are either Python floats (concrete, IEEE semantics by
construction) or instances of R: a rational function of the symbolic inputs in
factored normal form  coef * prod f_i^e_i  (f_i primitive integer polynomials).
Comparisons are decided by the path explorer: a comparison becomes a question
about the sign of the factors, which an SMT solver (z3, linear or nonlinear
real arithmetic) answers under the path condition; if both answers are
possible the path forks.
"""
import math, os
from fractions import Fraction
import z3

NEG, ZERO, POS = 1, 2, 4


class PathAbort(Exception):
    pass


class Infeasible(PathAbort):
    pass


class Inconclusive(PathAbort):
    """the engine cannot decide (unsupported operation, solver timeout...)"""


class Violation(PathAbort):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg
        super().__init__(kind + ": " + msg)


# ------------------------------------------------------------- polynomials
# Poly: dict monomial(tuple of var ids, sorted, with repetition) -> int coef

def _mono_key(m):
    return (len(m), m)


def p_mul(a, b):
    r = {}
    if len(a) > len(b):
        a, b = b, a
    for ma, ca in a.items():
        for mb, cb in b.items():
            if not ma:
                m = mb
            elif not mb:
                m = ma
            else:
                m = tuple(sorted(ma + mb))
            v = r.get(m, 0) + ca * cb
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_addscaled(a, ka, b, kb):
    r = {m: c * ka for m, c in a.items()} if ka != 1 else dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * kb
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_lead(p):
    return max(p, key=_mono_key)


def _mdiv(m, d):
    """monomial division m/d or None"""
    if not d:
        return m
    l = list(m)
    for v in d:
        try:
            l.remove(v)
        except ValueError:
            return None
    return tuple(l)


def p_divexact(a, b):
    """a / b if exact (over Q) else None"""
    if not b:
        return None
    if not a:
        return {}
    lb = p_lead(b)
    cb = b[lb]
    r = dict(a)
    q = {}
    n = 0
    maxit = 64
    while r:
        lr = p_lead(r)
        m = _mdiv(lr, lb)
        if m is None:
            return None
        c = Fraction(r[lr], 1) / cb
        q[m] = c
        for mb, c2 in b.items():
            mm = tuple(sorted(m + mb)) if m and mb else (m or mb)
            v = r.get(mm, 0) - c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
        n += 1
        if n > maxit:
            return None
    return q


def p_sqrt(p):
    """polynomial square root if p is a perfect square over Q, else None"""
    if not p:
        return {}
    l = p_lead(p)
    if len(l) % 2:
        return None
    half = l[::2]
    if tuple(sorted(half + half)) != l:
        return None
    c = frac_sqrt(Fraction(p[l]))
    if c is None:
        return None
    root = {half: c}
    n = 0
    while True:
        r = p_addscaled(p, 1, p_mul(root, root), -1)
        if not r:
            return root
        lr = p_lead(r)
        m = _mdiv(lr, half)
        if m is None or _mono_key(m) >= _mono_key(half):
            return None
        if m in root:
            return None
        root[m] = Fraction(r[lr]) / (2 * c)
        n += 1
        if n > 40:
            return None


def frac_sqrt(f):
    if f < 0:
        return None
    n = math.isqrt(f.numerator)
    d = math.isqrt(f.denominator)
    if n * n == f.numerator and d * d == f.denominator:
        return Fraction(n, d)
    return None


class PolyT:
    """interned primitive non-constant polynomial with positive leading coef"""
    __slots__ = ("p", "key", "vars", "deg", "z", "iv", "lin")
    table = {}

    @staticmethod
    def get(p):
        key = tuple(sorted(p.items()))
        t = PolyT.table.get(key)
        if t is None:
            t = PolyT()
            t.p = p
            t.key = key
            vs = set()
            d = 0
            for m in p:
                vs.update(m)
                if len(m) > d:
                    d = len(m)
            t.vars = frozenset(vs)
            t.deg = d
            t.z = None
            t.iv = None
            PolyT.table[key] = t
        return t


def normalise(p):
    """p (dict, Fraction/int coefs, nonzero) -> (coef Fraction, PolyT or None)"""
    if len(p) == 1 and () in p:
        return Fraction(p[()]), None
    den = 1
    for c in p.values():
        if type(c) is not int:
            d = c.denominator
            den = den * d // math.gcd(den, d)
    num = 0
    ip = {}
    for m, c in p.items():
        v = int(c * den)
        ip[m] = v
        num = math.gcd(num, v)
    if ip[p_lead(ip)] < 0:
        num = -num
    if num != 1:
        ip = {m: v // num for m, v in ip.items()}
    return Fraction(num, den), PolyT.get(ip)


def isfinite(x):
    return x - x == 0


class Ctx:
    """state of the path being executed; filled in by explore.py"""
    cur = None


def fr(x):
    return Fraction(x)


class R:
    """coef * prod f^e, coef != 0"""
    __slots__ = ("c", "f", "pw")

    def __init__(self, c, f):
        self.c = c
        self.f = f
        self.pw = None

    # expanded numerator (dict) given which factors are excluded
    @staticmethod
    def var(vid):
        return R(Fraction(1), {PolyT.get({(vid,): 1}): 1})

    @staticmethod
    def const(c):
        return R(Fraction(c), {})

    @staticmethod
    def build(c, p, denf):
        """c * p(dict) * prod(denf)"""
        if not p:
            return 0.0
        k, t = normalise(p)
        c = c * k
        f = dict(denf)
        if t is not None:
            # try to cancel t against factors of negative exponent
            for g in list(f):
                while t is not None and f.get(g, 0) < 0:
                    if g is t:
                        f[g] += 1
                        if f[g] == 0:
                            del f[g]
                        t = None
                        break
                    if not g.vars <= t.vars or g.deg > t.deg:
                        break
                    q = p_divexact(t.p, g.p)
                    if q is None:
                        break
                    f[g] += 1
                    if f[g] == 0:
                        del f[g]
                    k, t = normalise(q)
                    c = c * k
            if t is not None:
                v = f.get(t, 0) + 1
                if v:
                    f[t] = v
                else:
                    del f[t]
        return R(c, f).simp()

    def simp(self):
        if not self.f:
            return conc(self.c)
        return self

    def expand(self, excl):
        """(numerator poly dict without coef) for factors self.f minus excl exps
        (all resulting exps must be >= 0)"""
        p = {(): 1}
        for g, e in self.f.items():
            e -= excl.get(g, 0)
            for _ in range(e):
                p = p_mul(p, g.p)
        for g, e in excl.items():
            if g not in self.f:
                for _ in range(-e):
                    p = p_mul(p, g.p)
        return p

    def _add(self, o, sgn):
        if type(o) is float or type(o) is int:
            if o == 0:
                return self
            if not isfinite(o):
                return o * sgn
            o = R(Fraction(o), {})
        a, b = self, o
        # common factors: min exponents over union
        common = {}
        for g, e in a.f.items():
            e2 = b.f.get(g, 0)
            m = e if e < e2 else e2
            if m:
                common[g] = m
        for g, e in b.f.items():
            if g not in a.f and e < 0:
                common[g] = e
        pa = a.expand(common)
        pb = b.expand(common)
        p = p_addscaled(pa, a.c, pb, b.c * sgn)
        return R.build(Fraction(1), p, common)

    def __add__(self, o):
        if o.__class__ is Lazy:
            o = o.force()
        return self._add(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        if o.__class__ is Lazy:
            o = o.force()
        return self._add(o, -1)

    def __rsub__(self, o):
        if o.__class__ is float and not isfinite(o):
            return o
        return (-self)._add(o, 1)

    def __neg__(self):
        return R(-self.c, self.f)

    def __mul__(self, o):
        if o.__class__ is Lazy:
            o = o.force()
        if o.__class__ is float or o.__class__ is int:
            if o == 0:
                return 0.0
            if not isfinite(o):
                if o != o:
                    return o
                s = self.sign()
                return math.nan if s == 0 else o * s
            return R(self.c * Fraction(o), self.f)
        f = dict(self.f)
        for g, e in o.f.items():
            v = f.get(g, 0) + e
            if v:
                f[g] = v
            else:
                del f[g]
        return R(self.c * o.c, f).simp()

    __rmul__ = __mul__

    def inv(self):
        return R(1 / self.c, {g: -e for g, e in self.f.items()})

    # ---- sign
    def sign(self):
        """fully decided sign (-1,0,1); forks as needed"""
        s = 1 if self.c > 0 else -1
        ctx = Ctx.cur
        for g, e in self.f.items():
            if e < 0 and e % 2 == 0:
                continue
            t = ctx.sign3(g)
            if t == 0:
                return 0
            if e % 2 and t < 0:
                s = -s
        return s

    def test(self, want):
        """is sign(self) in want? forks as needed"""
        ctx = Ctx.cur
        flip = self.c < 0
        fs = [(g, e) for g, e in self.f.items() if not (e < 0 and e % 2 == 0)]
        if len(fs) == 1:
            g, e = fs[0]
            if flip:
                want = (want & ZERO) | (POS if want & NEG else 0) | (NEG if want & POS else 0)
            if e % 2 == 0:
                want = (want & ZERO) | ((NEG | POS) if want & POS else 0)
            return ctx.decide(g, want)
        # quick answer from cached masks
        m = POS
        for g, e in fs:
            m = mask_mul(m, ctx.mask(g), e)
        if flip:
            m = mask_neg(m)
        if not m & ~want:
            return True
        if not m & want:
            return False
        s = 1
        if flip:
            s = -s
        # zero first
        for g, e in fs:
            t = ctx.sign3(g)
            if t == 0:
                return bool(want & ZERO)
            if e % 2 and t < 0:
                s = -s
        return bool(want & (POS if s > 0 else NEG))

    def _cmp(self, o, want):
        if o.__class__ is Lazy:
            o = o.force()
        if o.__class__ is float:
            if o != o:
                return False
            if o == math.inf:
                return bool(want & NEG)
            if o == -math.inf:
                return bool(want & POS)
        d = self._add(o, -1)
        if d.__class__ is float:
            return bool(want & (ZERO if d == 0 else (POS if d > 0 else NEG)))
        return d.test(want)

    def __lt__(self, o):
        return self._cmp(o, NEG)

    def __le__(self, o):
        return self._cmp(o, NEG | ZERO)

    def __gt__(self, o):
        return self._cmp(o, POS)

    def __ge__(self, o):
        return self._cmp(o, POS | ZERO)

    def __eq__(self, o):
        return self._cmp(o, ZERO)

    def __ne__(self, o):
        return not self._cmp(o, ZERO) if not (o.__class__ is float and o != o) else True

    __hash__ = None

    def __repr__(self):
        return "R(%s%s)" % (self.c, "".join("*(%s)^%d" % (pstr(g.p), e) for g, e in self.f.items()))

    def eval(self, model):
        v = self.c
        for g, e in self.f.items():
            x = p_eval(g.p, model)
            if x == 0 and e < 0:
                return math.nan
            v = v * x ** e
        return v

    def vars(self):
        s = set()
        for g in self.f:
            s |= g.vars
        return s


def mask_neg(m):
    return (m & ZERO) | (POS if m & NEG else 0) | (NEG if m & POS else 0)


def mask_mul(m, g, e):
    if e % 2 == 0:
        g = (g & ZERO) | (POS if g & (POS | NEG) else 0)
    r = 0
    if (m & ZERO) or (g & ZERO):
        r |= ZERO
    if (m & POS and g & POS) or (m & NEG and g & NEG):
        r |= POS
    if (m & POS and g & NEG) or (m & NEG and g & POS):
        r |= NEG
    return r


def pstr(p):
    ctx = Ctx.cur
    def nm(v):
        return ctx.vars[v].name if ctx and v < len(ctx.vars) else "x%d" % v
    return " + ".join("%s%s" % (c, "".join("*" + nm(v) for v in m)) for m, c in sorted(p.items(), key=lambda t: _mono_key(t[0])))


def p_eval(p, model):
    s = 0
    for m, c in p.items():
        t = c
        for v in m:
            t = t * model[v]
        s += t
    return s


def conc(fr_):
    """Fraction -> float if exact else constant R"""
    try:
        x = fr_.numerator / fr_.denominator
    except OverflowError:
        return R(fr_, {})
    if isfinite(x) and Fraction(x) == fr_:
        return x
    return R(fr_, {})


class Lazy:
    """a double that is one of several values, chosen when first looked at"""
    __slots__ = ("id", "alts", "val", "on")

    def __init__(self, id, alts):
        self.id = id
        self.alts = alts
        self.on = False
        self.val = None

    def force(self):
        if not self.on:
            k = Ctx.cur.choose_lazy(self)
            self.val = self.alts[k]
            self.on = True
        return self.val


def _lz(name):
    def f(self, o):
        v = self.force()
        if o.__class__ is Lazy:
            o = o.force()
        import operator
        return getattr(operator, name)(v, o)
    return f


def _rlz(name):
    def f(self, o):
        import operator
        return getattr(operator, name)(o, self.force())
    return f


for n, opn in (("add", "add"), ("sub", "sub"), ("mul", "mul")):
    setattr(Lazy, "__%s__" % n, _lz(opn))
    setattr(Lazy, "__r%s__" % n, _rlz(opn))
for n in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Lazy, "__%s__" % n, _lz(n))
Lazy.__hash__ = None
Lazy.__neg__ = lambda self: -self.force()


def fdiv(a, b):
    if a.__class__ is Lazy:
        a = a.force()
    if b.__class__ is Lazy:
        b = b.force()
    if a.__class__ is float and b.__class__ is float:
        if b == 0.0:
            if a != a or a == 0.0:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    if b.__class__ is float:
        if b == 0.0:
            s = a.sign()
            if s == 0:
                return math.nan
            return s * math.inf * math.copysign(1.0, b)
        if b != b:
            return b
        if not isfinite(b):
            return 0.0
        return R(a.c / Fraction(b), a.f)
    if b.__class__ is not R:
        raise Violation("uninit", "uninitialised value used in division")
    # symbolic divisor
    if b.f and b.test(ZERO):
        # divisor exactly zero: sign of zero is not tracked
        if a.__class__ is float:
            if a != a or a == 0.0:
                return math.nan
            return math.copysign(math.inf, a)
        s = a.sign()
        return math.nan if s == 0 else s * math.inf
    bi = b.inv()
    if a.__class__ is float:
        if a == 0.0:
            return 0.0
        if not isfinite(a):
            return a * b.sign() if a == a else a
        return bi * a
    r = a * bi
    # cancel polynomial quotients
    if r.__class__ is R:
        neg = [g for g, e in r.f.items() if e < 0]
        pos = [g for g, e in r.f.items() if e > 0]
        for g in neg:
            for h in pos:
                if h.deg >= g.deg and g.vars <= h.vars and r.f.get(g, 0) < 0 and r.f.get(h, 0) > 0:
                    q = p_divexact(h.p, g.p)
                    if q is not None:
                        f = dict(r.f)
                        for t, d in ((h, -1), (g, 1)):
                            f[t] = f[t] + d
                            if f[t] == 0:
                                del f[t]
                        r = R.build(r.c, q, f)
                        if r.__class__ is not R:
                            return r
    return r


def fabs_(a):
    if a.__class__ is float:
        return abs(a)
    if a.__class__ is Lazy:
        return fabs_(a.force())
    return a if a.test(POS | ZERO) else -a


def fsqrt(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        if a < 0:
            return -math.nan
        return math.sqrt(a) if a == a and a != math.inf else a
    ctx = Ctx.cur
    # perfect square?
    c = frac_sqrt(abs(a.c)) if a.c > 0 else None
    if c is not None:
        root = {}
        ok = True
        for g, e in a.f.items():
            if e % 2 == 0:
                root[g] = e // 2
            else:
                s = p_sqrt(g.p)
                if s is None:
                    ok = False
                    break
                k, t = normalise(s)
                c *= abs(k) ** e
                root[t] = root.get(t, 0) + e
                if root[t] == 0:
                    del root[t]
        if ok:
            r = R(c, root).simp()
            return fabs_(r)
    if a.test(NEG):
        return math.nan
    if a.test(ZERO):
        return 0.0
    # sqrt of an integer coefficient only
    return ctx.sqrt_symbol(a)


def is_nan(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        return a != a
    if a.__class__ is R:
        return False
    raise Violation("uninit", "uninitialised value tested for NaN")


def is_inf(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        return a == math.inf or a == -math.inf
    return False


def f2int(a, bits, signed, what):
    """fptosi/fptoui with UB check"""
    if a.__class__ is Lazy:
        a = a.force()
    lo = -(1 << (bits - 1)) if signed else 0
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    if a.__class__ is float:
        if a != a or a in (math.inf, -math.inf):
            raise Violation("float-cast", "conversion of %r to %d-bit integer (%s)" % (a, bits, what))
        k = int(a)
        if k < lo or k > hi:
            raise Violation("float-cast", "conversion of %r to %d-bit integer (%s)" % (a, bits, what))
        return k if signed else (k if k < (1 << (bits - 1)) else k - (1 << bits))
    if a.__class__ is not R:
        raise Violation("uninit", "uninitialised value converted to integer")
    if not a.f:
        k = int(a.c)
    else:
        k = Ctx.cur.choose_trunc(a)
    if k < lo or k > hi:
        raise Violation("float-cast", "conversion of a value near %r to %d-bit integer (%s)" % (k, bits, what))
    return k if signed or k < (1 << (bits - 1)) else k - (1 << bits)


def ffloor(a):
    if a.__class__ is Lazy:
        a = a.force()
    if a.__class__ is float:
        return float(math.floor(a)) if isfinite(a) else a
    k = Ctx.cur.choose_trunc(a)
    if a < float(k):
        k -= 1
    return float(k)


def fceil(a):
    r = ffloor(-a if a.__class__ is not Lazy else -a.force())
    return -r
