"""Path exploration: every comparison on symbolic values is decided by z3 under
the path condition; when both outcomes are possible the path forks."""
import math, os, sys, time, json, pickle, select, signal
from fractions import Fraction
import z3
from . import sym, rt
from .sym import (mask_neg, PolyT, R, Lazy, Ctx, NEG, ZERO, POS, PathAbort, Infeasible, Inconclusive, Violation, p_eval,
                  normalise, p_mul, p_addscaled)
from .trans import translate
from .rt import Obj, FnRef, VFile, UNDEF, NULL, ExitC

sys.setrecursionlimit(150000)
ZV = {}


def zvar(i):
    v = ZV.get(i)
    if v is None:
        v = ZV[i] = z3.Real("x%d" % i)
    return v


def zpoly(g):
    if g.z is None:
        ts = []
        for m, c in g.p.items():
            if not m:
                ts.append(z3.RealVal(c))
                continue
            t = zvar(m[0])
            for v in m[1:]:
                t = t * zvar(v)
            ts.append(t if c == 1 else z3.RealVal(c) * t)
        g.z = z3.Sum(ts) if len(ts) > 1 else ts[0]
    return g.z


def zcon(g, mask):
    e = zpoly(g)
    if mask == POS:
        return e > 0
    if mask == NEG:
        return e < 0
    if mask == ZERO:
        return e == 0
    if mask == POS | ZERO:
        return e >= 0
    if mask == NEG | ZERO:
        return e <= 0
    if mask == POS | NEG:
        return e != 0
    return z3.BoolVal(bool(mask))


class Var:
    __slots__ = ("name", "lo", "hi", "approx")

    def __init__(self, name, lo, hi, approx=False):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.approx = approx


def zval(r):
    """z3 numeral -> (Fraction, exact)"""
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long()), True
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long()), False
    return Fraction(0), False


def quad(g, v):
    """coefficients of a polynomial of degree up to 2 in one variable"""
    p = g.p
    return Fraction(p.get((v, v), 0)), Fraction(p.get((v,), 0)), Fraction(p.get((), 0))


def roots(a, b, c):
    """rational enclosures of the two roots of a x^2 + b x + c, or None"""
    d = b * b - 4 * a * c
    if d < 0:
        return None
    k = 160 - (d.numerator.bit_length() - d.denominator.bit_length())
    k = max(0, k + k % 2)
    n = (d.numerator << k) // d.denominator
    s = math.isqrt(n)
    s0 = Fraction(s, 1 << k // 2)
    s1 = s0 if s0 * s0 == d else Fraction(s + 1, 1 << k // 2)
    a2 = 2 * abs(a)
    m = -b / (2 * a)
    return (m - s1 / a2, m - s0 / a2), (m + s0 / a2, m + s1 / a2)


def dyadic(lo, hi):
    """a simple number strictly between lo < hi"""
    q = 1
    while True:
        x = Fraction(math.ceil((lo + hi) / 2 * q - Fraction(1, 2)), q)
        if lo < x < hi:
            return x
        q *= 2


class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.inconclusive = {}
        self.queries = 0
        self.oneline = 0
        self.nlqueries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.checks = {}
        self.called = set()
        self.violations = []
        self.samples = []
        self.uncertain_paths = 0
        self.maxsteps = 0

    def merge(self, o):
        self.paths += o.paths
        self.infeasible += o.infeasible
        for k, v in o.inconclusive.items():
            self.inconclusive[k] = self.inconclusive.get(k, 0) + v
        self.queries += o.queries
        self.oneline += o.oneline
        self.nlqueries += o.nlqueries
        self.unknown += o.unknown
        self.solver_s += o.solver_s
        self.decisions += o.decisions
        for k, v in o.checks.items():
            self.checks[k] = self.checks.get(k, 0) + v
        self.called |= o.called
        self.violations += o.violations
        if len(self.samples) < 12:
            self.samples += o.samples[:12 - len(self.samples)]
        self.uncertain_paths += o.uncertain_paths
        self.maxsteps = max(self.maxsteps, o.maxsteps)


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, text):
        self.mod, self.src, self.g = translate(text)
        ns = dict(rt.__dict__)
        self.ns = ns
        missing = []
        for x in self.g.used_ext:
            if "X_" + x not in ns:
                missing.append(x)
                ns["X_" + x] = self._missing(x)
        self.missing = missing
        exec(compile(self.src, "<ir>", "exec"), ns)
        self.gref = {}     # python name of global -> global name
        for k, (kind, name) in self.g.gnames.items():
            if kind == 'f':
                ns[k] = (FnRef(name), 0)
        self.gpy = {}
        for name in self.mod.globals:
            import re
            self.gpy[name] = 'G_' + re.sub(r'[^A-Za-z0-9_]', '_', name)
        self.fixed = set()
        self.mutable = []
        for name, (t, init, const) in self.mod.globals.items():
            if name in ("stdin", "stdout", "stderr"):
                self.mutable.append(name)
                continue
            if const and init is not None and not self._hasglob(init):
                o = self.mkobj(name)
                self.initobj(o, t, init, None)
                o.ro = True
                ns[self.gpy[name]] = (o, 0)
                self.fixed.add(name)
            else:
                self.mutable.append(name)

    @staticmethod
    def _missing(x):
        def f(*a, **k):
            raise Inconclusive("external function " + x)
        return f

    def _hasglob(self, c):
        if c[0] == 'glob':
            return True
        if c[0] == 'agg':
            return any(self._hasglob(x) for _, x in c[1])
        return False

    def mkobj(self, name):
        t = self.mod.globals[name][0]
        return Obj(self.mod.ty.size(t), "global", name)

    def initobj(self, o, t, c, env):
        o.zero = True
        self._put(o, 0, t, c, env)
        o.codes = 0 if o.cells else None

    def _put(self, o, off, t, c, env):
        ty = self.mod.ty
        k = c[0]
        if k in ('zero', 'undef'):
            return
        t = ty.res(t)
        if k == 'bytes':
            for i, b in enumerate(c[1]):
                o.cells[off + i] = (1, b if b < 128 else b - 256)
            return
        if k == 'agg':
            if t[0] == 'a':
                es = ty.size(t[2])
                for i, (et, x) in enumerate(c[1]):
                    self._put(o, off + i * es, et, x, env)
            else:
                for i, (et, x) in enumerate(c[1]):
                    fo, ft = ty.field(t, i)
                    self._put(o, off + fo, ft, x, env)
            return
        code = ty.code(t)
        if k == 'int':
            n = t[1] if t[0] == 'i' else 64
            v = c[1] & ((1 << n) - 1)
            if v >> (n - 1) and n > 1:
                v -= 1 << n
            o.cells[off] = (code if code != 'p' else 8, v)
        elif k == 'dbl':
            o.cells[off] = (code, c[1])
        elif k == 'null':
            o.cells[off] = ('p', NULL)
        elif k == 'glob':
            if c[1] in self.mod.globals:
                b = self.ns[self.gpy[c[1]]] if c[1] in self.fixed else env[c[1]]
                o.cells[off] = ('p', (b[0], c[2]))
            else:
                o.cells[off] = ('p', (FnRef(c[1]), 0))
        else:
            raise Inconclusive("initialiser")

    def reset_globals(self):
        env = {}
        for name in self.mutable:
            env[name] = (self.mkobj(name), 0)
        for name in self.mutable:
            t, init, const = self.mod.globals[name]
            o = env[name][0]
            if init is not None:
                self.initobj(o, t, init, env)
                if const:
                    o.ro = True
            elif name not in ("stdin", "stdout", "stderr"):
                o.zero = True
            self.ns[self.gpy[name]] = env[name]

    def snapshot_globals(self):
        return {n: self.ns.get(self.gpy[n]) for n in self.mutable}

    def restore_globals(self, snap):
        for n, v in snap.items():
            self.ns[self.gpy[n]] = v

    def bind_std(self):
        ctx = Ctx.cur
        for n in ("stdin", "stdout", "stderr"):
            if n in self.mod.globals:
                o = self.ns[self.gpy[n]][0]
                o.cells[0] = ('p', (getattr(ctx, n), 0))

    def fn(self, name):
        import re
        f = self.ns.get('F_' + re.sub(r'[^A-Za-z0-9_]', '_', name))
        if f is None:
            f = self.ns.get('X_' + name)
        if f is None:
            f = self._missing(name)
        return f


class PathDone(Exception):
    """parent side of a checkpoint: the subtree has been explored by children"""


# ------------------------------------------------------------------ one path
class Path:
    def __init__(self, ex, prefix, model):
        self.ex = ex
        self.program = ex.program
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.vars = []
        self.model = None
        self.smodel = model     # model recorded with the prefix (list, may be None)
        self.mok = model is not None or not prefix
        self.masks = {}
        self.tok = object()     # renewed when the interval of a variable shrinks
        self.mtok = {}
        self.uni = {}           # variable -> {linear PolyT in it alone that is in cons: its root}
        self.cons = {}          # PolyT -> mask (asserted knowledge)
        self.inputs = []
        self.checks = {}
        self.notes = []
        self.vals = []          # model values by var
        self.uncertain = False
        self.noisy = False
        self.new = []           # forked work
        self.sq = {}
        self.zs = None
        self.zn = 0
        self.conlist = []
        # environment
        self.heap = {}
        self.freed = []
        self.addr = {}
        self.addr_rev = {}
        self.vfs = {}
        self.tokens = []
        self.files = []
        self.nopen = 0
        self.cap = []
        self.strtok = None
        self.ctypetab = None
        self.rand48 = 0x1234ABCD330E
        self._errno = None
        self.stdin = VFile(b"stdin", b"r", bytearray())
        self.stdout = VFile(b"stdout", b"w", bytearray())
        self.stderr = VFile(b"stderr", b"w", bytearray())
        self.child = False
        self.cpdepth = 0

    # --- errno
    def errno_ptr(self):
        if self._errno is None:
            self._errno = Obj(4, "global", "errno")
            self._errno.zero = True
        return (self._errno, 0)

    def set_errno(self, v):
        rt.st(self.errno_ptr(), v, 4, 4)

    # --- inputs
    def addvar(self, name, lo, hi, approx=False, val=None):
        i = len(self.vars)
        self.vars.append(Var(name, lo, hi, approx))
        if self.smodel is not None and i < len(self.smodel):
            val = self.smodel[i]
        elif val is None:
            k = (i * 397 + 619) % 1024 | 1
            val = lo + (hi - lo) * Fraction(k, 1024)
        self.vals.append(val)
        return i

    def new_real(self, lo, hi, name):
        lo = Fraction(lo)
        hi = Fraction(hi)
        if lo == hi:
            self.inputs.append(('c', float(lo)))
            return float(lo)
        i = self.addvar(name, lo, hi)
        self.inputs.append(('r', i))
        return R.var(i)

    def new_int(self, lo, hi, name):
        k = lo + self.choose(hi - lo + 1)
        self.inputs.append(('i', k))
        return k

    def new_lazy(self, alts, name):
        l = Lazy(len(self.inputs), alts)
        self.inputs.append(('l', l))
        return l

    # --- decisions
    def nextp(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d
        return None

    def choose(self, n):
        if n <= 1:
            return 0
        d = self.nextp()
        if d is not None:
            return d
        base = tuple(self.trace)
        for i in range(n - 1, 0, -1):
            self.new.append((base + (i,), self.curmodel()))
        self.trace.append(0)
        return 0

    def choose_lazy(self, l):
        return self.choose(len(l.alts))

    def curmodel(self):
        return list(self.vals) if self.mok else None

    def bounds(self, g):
        if g.iv is not None and g.iv[2] is self.tok:
            return g.iv
        if g.deg == 2 and len(g.vars) == 1:
            v, = g.vars
            a, b, c = quad(g, v)
            v = self.vars[v]
            x = (a * v.lo + b) * v.lo + c
            y = (a * v.hi + b) * v.hi + c
            if x > y:
                x, y = y, x
            t = -b / (2 * a)
            if v.lo < t < v.hi:
                z = c - b * b / (4 * a)
                x, y = min(x, z), max(y, z)
            g.iv = (x, y, self.tok)
            return g.iv
        lo = hi = Fraction(0)
        for m, c in g.p.items():
            a = b = Fraction(c)
            i = 0
            while i < len(m):
                v = self.vars[m[i]]
                n = 1
                while i + n < len(m) and m[i + n] == m[i]:
                    n += 1
                x, y = v.lo, v.hi
                if n > 1:
                    xs = [x ** n, y ** n]
                    if x < 0 < y and n % 2 == 0:
                        xs.append(Fraction(0))
                    x, y = min(xs), max(xs)
                ps = (a * x, a * y, b * x, b * y)
                a, b = min(ps), max(ps)
                i += n
            lo += a
            hi += b
        g.iv = (lo, hi, self.tok)
        return g.iv

    def mask(self, g):
        m = self.masks.get(g)
        if m is None or (m not in (POS, NEG, ZERO) and self.mtok.get(g) is not self.tok):
            lo, hi, _ = self.bounds(g)
            n = 7
            if lo > 0:
                n &= ~(NEG | ZERO)
            elif lo == 0:
                n &= ~NEG
            if hi < 0:
                n &= ~(POS | ZERO)
            elif hi == 0:
                n &= ~POS
            if m is not None and n & m:
                n &= m
            m = n
            self.masks[g] = m
            self.mtok[g] = self.tok
        return m

    def learn(self, g, m, forced):
        self.masks[g] = m
        if forced:
            return
        self.cons[g] = m
        self.conlist.append((g, m))
        if g.deg <= 2 and len(g.vars) == 1:
            self.tighten(g, m)

    def tighten(self, g, m):
        """a constraint on one variable: shrink its interval (the ends stay in it), drop the constraints it implies"""
        v, = g.vars
        var = self.vars[v]
        if var.approx:
            return
        u = self.uni.setdefault(v, set())
        u.add(g)
        lo, hi = var.lo, var.hi
        if g.deg == 1:
            c = g.p[(v,)]
            r = Fraction(-g.p.get((), 0), c)
            if c < 0:
                m = mask_neg(m)
            if not m & NEG and r > lo:
                lo = r
            if not m & POS and r < hi:
                hi = r
        else:
            a, b, c = quad(g, v)
            if a < 0:
                m = mask_neg(m)
            rr = roots(a, b, c)
            if rr is None:
                return
            (l1, u1), (l2, u2) = rr
            if not m & POS:
                lo = max(lo, l1)
                hi = min(hi, u2)
            if not m & NEG:
                if lo > u1:
                    lo = max(lo, l2)
                elif hi < l2:
                    hi = min(hi, u1)
        if lo > hi or (lo == var.lo and hi == var.hi):
            return
        var.lo = lo
        var.hi = hi
        self.tok = object()
        for h in list(u):
            x, y, _ = self.bounds(h)
            k = self.cons.get(h, 0)
            if (x > 0 and k & POS) or (y < 0 and k & NEG):
                u.remove(h)
                del self.cons[h]

    def decide(self, g, want):
        m = self.mask(g)
        if not m & ~want:
            return True
        if not m & want:
            return False
        d = self.nextp()
        if d is not None:
            out = d & 1
            self.learn(g, m & want if out else m & ~want, d in (2, 3))
            if d in (4, 5):
                self.uncertain = True
            return bool(out)
        self.ex.st.decisions += 1
        side = None
        if self.mok:
            if not any(self.vars[v].approx for v in g.vars):
                x = p_eval(g.p, self.vals)
                s = POS if x > 0 else (NEG if x < 0 else ZERO)
                side = 1 if s & want else 0
                om = m & ~want if side else m & want
                r, mod = self.query(g, om)
                if r == 'unsat':
                    self.trace.append(2 + side)
                    self.learn(g, m & want if side else m & ~want, True)
                    return bool(side)
                base = tuple(self.trace)
                if r == 'sat':
                    self.new.append((base + (1 - side,), mod))
                    self.trace.append(side)
                else:
                    self.new.append((base + (5 - side,), None))
                    self.trace.append(side)
                self.learn(g, m & want if side else m & ~want, False)
                return bool(side)
        # no usable model: ask about both sides
        r1, m1 = self.query(g, m & want)
        if r1 == 'unsat':
            self.trace.append(2)
            self.learn(g, m & ~want, True)
            return False
        r0, m0 = self.query(g, m & ~want)
        if r0 == 'unsat':
            self.trace.append(3)
            self.learn(g, m & want, True)
            if r1 == 'sat':
                self.setmodel(m1)
            return True
        base = tuple(self.trace)
        if r1 == 'sat' and r0 == 'sat':
            self.new.append((base + (0,), m0))
            self.trace.append(1)
            self.setmodel(m1)
            self.learn(g, m & want, False)
            return True
        # some answer unknown
        self.new.append((base + (0 if r0 == 'sat' else 4,), m0 if r0 == 'sat' else None))
        if r1 == 'sat':
            self.trace.append(1)
            self.setmodel(m1)
        else:
            self.trace.append(5)
            self.uncertain = True
            self.mok = False
        self.learn(g, m & want, False)
        return True

    def setmodel(self, m):
        if m is None:
            self.mok = False
            return
        for i, v in enumerate(m):
            self.vals[i] = v
        self.mok = True

    def sign3(self, g):
        m = self.mask(g)
        if m == POS:
            return 1
        if m == NEG:
            return -1
        if m == ZERO:
            return 0
        if self.decide(g, POS):
            return 1
        return -1 if self.decide(g, NEG) else 0

    # --- solver
    def slice(self, vars0):
        vs = set(vars0)
        rest = list(self.cons.items())
        sel = []
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for gm in rest:
                if gm[0].vars & vs:
                    vs |= gm[0].vars
                    sel.append(gm)
                    ch = True
                else:
                    nr.append(gm)
            rest = nr
        return sel, vs

    def query(self, g, mask, tmo=None):
        """is (path condition and sign(g) in mask) satisfiable? -> (r, model list or None)"""
        ex = self.ex
        sel, vs = self.slice(g.vars)
        sel = [(h, m) for h, m in sel if h is not g]
        quick = None
        if len(vs) == 1 and g.deg <= 2 and all(h.deg <= 2 for h, _ in sel):
            quick = self.oneline(g, mask, sel) if g.deg == 1 and all(h.deg == 1 for h, _ in sel) else self.witness(g, mask, sel)
            if quick is not None:
                ex.st.oneline += 1
                if not ex.audit:
                    return quick
        key = (frozenset((id(h), m) for h, m in sel), id(g), mask,
               tuple((v, self.vars[v].lo, self.vars[v].hi) for v in sorted(vs)))
        c = ex.cache.get(key)
        if c is None:
            t0 = time.time()
            ex.st.queries += 1
            lin = g.deg <= 1 and all(h.deg <= 1 for h, _ in sel)
            if lin:
                s = z3.SolverFor("QF_LRA")
                s.set("timeout", 20000)
            else:
                ex.st.nlqueries += 1
                s = z3.SolverFor("QF_NRA")
                s.set("timeout", tmo or ex.nl_timeout)
            for v in vs:
                zv = zvar(v)
                s.add(zv >= zrat(self.vars[v].lo), zv <= zrat(self.vars[v].hi))
            for h, m in sel:
                s.add(zcon(h, m))
            s.add(zcon(g, mask))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                c = ('unsat', None)
            elif r == z3.sat:
                mo = s.model()
                vals = {}
                exact = True
                for v in vs:
                    x = mo.eval(zvar(v), model_completion=True)
                    q, e = zval(x)
                    vals[v] = q
                    if not e:
                        exact = False
                c = ('sat', (vals, exact))
            else:
                ex.st.unknown += 1
                c = ('unknown', None)
            ex.st.solver_s += time.time() - t0
            if len(ex.cache) > 200000:
                ex.cache.clear()
            ex.cache[key] = c
        if quick is not None:
            if c[0] != 'unknown' and c[0] != quick[0]:
                raise RuntimeError("z3 disagrees with the interval decision")
            return quick
        if c[0] != 'sat':
            return c[0], None
        vals, exact = c[1]
        if not self.mok:
            # the other slices have no known model: combine only if this slice is everything constrained
            allc = [h for h in self.cons if not (h.vars & vs)]
            if allc:
                full = self.fullmodel((g, mask))
                return 'sat', full
        mod = list(self.vals)
        for v, x in vals.items():
            mod[v] = x
        if not exact:
            # approximate algebraic values: usable only when every constraint still evaluates true
            if not self.model_ok(mod, (g, mask)):
                return 'sat', None
        return 'sat', mod

    def oneline(self, g, mask, sel):
        """linear constraints on a single variable: exact interval arithmetic"""
        v, = g.vars
        lo, hi = self.vars[v].lo, self.vars[v].hi
        los = his = False
        ne = set()
        for h, m in sel + [(g, mask)]:
            c = h.p[(v,)]
            r = Fraction(-h.p.get((), 0), c)
            if c < 0:
                m = mask_neg(m)
            if m == 0:
                return 'unsat', None
            if m == POS | NEG:
                ne.add(r)
                continue
            if not m & NEG and (r > lo or (r == lo and not m & ZERO)):
                lo, los = r, not m & ZERO
            if not m & POS and (r < hi or (r == hi and not m & ZERO)):
                hi, his = r, not m & ZERO
        if lo > hi or (lo == hi and (los or his or lo in ne)):
            return 'unsat', None
        if lo == hi:
            x = lo
        else:
            q = 1
            while True:
                k = math.ceil((lo + hi) / 2 * q - Fraction(1, 2))
                x = Fraction(k, q)
                if lo < x < hi:
                    if x not in ne:
                        break
                    hi = x
                q *= 2
        if not self.mok and any(not (h.vars & g.vars) for h in self.cons):
            return 'sat', self.fullmodel((g, mask))
        mod = list(self.vals)
        mod[v] = x
        return 'sat', mod

    def witness(self, g, mask, sel):
        """constraints of degree 1 and 2 on a single variable: look for a value between their roots (a model, or None)"""
        v, = g.vars
        lo, hi = self.vars[v].lo, self.vars[v].hi
        con = sel + [(g, mask)]
        ps = {lo, hi}
        for h, _ in con:
            a, b, c = quad(h, v)
            for q in ([(-c / b,) * 2] if a == 0 else roots(a, b, c) or ()):
                ps.update(x for x in q if lo < x < hi)
        ps = sorted(ps)

        def ok(x):
            for h, m in con:
                a, b, c = quad(h, v)
                y = (a * x + b) * x + c
                if not (POS if y > 0 else NEG if y < 0 else ZERO) & m:
                    return False
            return True

        for x in [dyadic(ps[i], ps[i + 1]) for i in range(len(ps) - 1)] + ps:
            if ok(x):
                if not self.mok and any(not (h.vars & g.vars) for h in self.cons):
                    return 'sat', self.fullmodel((g, mask))
                mod = list(self.vals)
                mod[v] = x
                return 'sat', mod
        return None

    def model_ok(self, mod, extra=None):
        items = list(self.cons.items())
        if extra:
            items = [x for x in items if x[0] is not extra[0]] + [extra]
        for h, m in items:
            if any(self.vars[v].approx for v in h.vars):
                continue
            x = p_eval(h.p, mod)
            s = POS if x > 0 else (NEG if x < 0 else ZERO)
            if not s & m:
                return False
        return True

    def fullmodel(self, extra=None):
        s = z3.Solver()
        s.set("timeout", self.ex.nl_timeout)
        vs = set()
        for h, m in self.cons.items():
            if extra and h is extra[0]:
                continue
            s.add(zcon(h, m))
            vs |= h.vars
        if extra:
            s.add(zcon(*extra))
            vs |= extra[0].vars
        for v in vs:
            s.add(zvar(v) >= zrat(self.vars[v].lo), zvar(v) <= zrat(self.vars[v].hi))
        self.ex.st.queries += 1
        if s.check() != z3.sat:
            return None
        mo = s.model()
        mod = list(self.vals)
        exact = True
        for v in vs:
            q, e = zval(mo.eval(zvar(v), model_completion=True))
            mod[v] = q
            exact = exact and e
        if not exact and not self.model_ok(mod, extra):
            return None
        return mod

    # --- helpers for special values
    def rkey(self, a):
        return (a.c, frozenset(a.f.items()))

    def choose_trunc(self, a):
        d = self.nextp()
        if d is None:
            k = 0
            if self.mok:
                v = a.eval(self.vals)
                if v.__class__ is Fraction:
                    k = int(v)
            d = ('k', k)
            self.trace.append(d)
        k = d[1]
        n = 0
        # largest integer f with f <= a
        if a >= float(k):
            while a >= float(k + 1):
                k += 1
                n += 1
                if n > 4096:
                    raise Inconclusive("integer range of a real too large")
        else:
            k -= 1
            while not a >= float(k):
                k -= 1
                n += 1
                if n > 4096:
                    raise Inconclusive("integer range of a real too large")
        if k < 0 and not a == float(k):
            k += 1
        return k

    def sqrt_symbol(self, a):
        key = ('sqrt',) + self.rkey(a)
        r = self.sq.get(key)
        if r is not None:
            return r
        num = {(): a.c.numerator}
        den = {(): a.c.denominator}
        for g, e in a.f.items():
            for _ in range(abs(e)):
                if e > 0:
                    num = p_mul(num, g.p)
                else:
                    den = p_mul(den, g.p)
        hi = Fraction(1 << 40)
        v = None
        if self.mok:
            x = a.eval(self.vals)
            if x.__class__ is Fraction and x >= 0:
                v = Fraction(math.sqrt(x))
        i = self.addvar("sqrt", Fraction(0), hi, True, v if v is not None else Fraction(1))
        if v is None:
            self.mok = False
        p = p_addscaled(p_mul(den, {(i, i): 1}), 1, num, -1)
        _, t = normalise(p)
        self.masks[t] = ZERO
        self.cons[t] = ZERO
        r = R.var(i)
        self.masks[PolyT.get({(i,): 1})] = POS
        self.cons[PolyT.get({(i,): 1})] = POS
        self.sq[key] = r
        return r

    def round_symbol(self, a):
        key = ('f32',) + self.rkey(a)
        r = self.sq.get(key)
        if r is None:
            h = Fraction(1, 1 << 24)
            self.noisy = True
            r = self.sq[key] = a * (R.const(1) + R.var(self.addvar("round", -h, h)))
        return r

    UF = {'acos': (-1, 1, 0, math.pi)}

    def ufun(self, name, a):
        key = (name,) + self.rkey(a)
        r = self.sq.get(key)
        if r is None:
            raise Inconclusive("%s of a symbolic value" % name)
        return r

    # --- checkpoint
    def checkpoint(self):
        if not self.ex.use_fork or self.cpdepth:
            return
        ex = self.ex
        self.cpdepth = 1
        base = list(self.trace)
        model = self.curmodel()
        stack = [(self.prefix if len(self.prefix) > len(base) else tuple(base), model if len(self.prefix) <= len(base) else self.smodel)]
        pre = self.new
        self.new = []
        deadline = ex.slice_end
        nb = len(base)
        while stack:
            if time.time() > deadline and ex.st.paths > ex.slice_p0:
                break
            pf, mo = stack.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                self.child = w
                self.prefix = pf
                self.pos = nb
                if mo is not None:
                    self.smodel = mo
                    for i in range(len(self.vals)):
                        self.vals[i] = mo[i]
                    self.mok = True
                else:
                    self.smodel = None
                    self.mok = len(pf) <= nb and self.mok
                ex.st = Stats()
                return
            os.close(w)
            buf = b""
            while True:
                c = os.read(r, 1 << 16)
                if not c:
                    break
                buf += c
            os.close(r)
            os.waitpid(pid, 0)
            if not buf:
                ex.st.inconclusive["child died"] = ex.st.inconclusive.get("child died", 0) + 1
                continue
            stt, new = pickle.loads(buf)
            ex.st.merge(stt)
            stack.extend(new)
            if ex.st.violations and ex.stop_on_violation:
                break
        self.new = pre + stack
        raise PathDone()

    # --- counterexample
    def dyadic_model(self):
        """model of the path condition with small dyadic values where possible"""
        cons = [(h, m) for h, m in self.cons.items()]
        real = sorted(set(range(len(self.vars))))
        vs = [i for i in real if not self.vars[i].approx and self.vars[i].name != "round"]
        lin = all(h.deg <= 1 for h, _ in cons)
        s = z3.Solver()
        s.set("timeout", 5000)
        for i in real:
            s.add(zvar(i) >= zrat(self.vars[i].lo), zvar(i) <= zrat(self.vars[i].hi))
        for h, m in cons:
            s.add(zcon(h, m))
        r = s.check()
        if r == z3.unsat:
            return None
        out = {}
        if r == z3.sat:
            mo = s.model()
            cur = {i: zval(mo.eval(zvar(i), model_completion=True))[0] for i in real}
        elif self.mok:
            cur = {i: self.vals[i] for i in real}
        else:
            return None
        if self.mok and self.model_ok(self.vals):
            cur = {i: self.vals[i] for i in real}
        for i in vs:
            done = False
            for k in (0, 1, 2, 4, 6, 8, 12, 20, 30, 40):
                q = 1 << k
                c0 = math.floor(cur[i] * q)
                for c in ((c0, c0 + 1) if Fraction(c0, q) != cur[i] else (c0,)):
                    val = Fraction(c, q)
                    if not self.vars[i].lo <= val <= self.vars[i].hi:
                        continue
                    s.push()
                    s.add(zvar(i) == zrat(val))
                    rr = s.check()
                    if rr == z3.sat:
                        mo = s.model()
                        for j in real:
                            cur[j] = zval(mo.eval(zvar(j), model_completion=True))[0]
                        cur[i] = val
                        done = True
                        break
                    s.pop()
                if done:
                    break
            if not done:
                out['inexact'] = True
                s.add(z3.And(zvar(i) >= zrat(cur[i] - Fraction(1, 1 << 30)), zvar(i) <= zrat(cur[i] + Fraction(1, 1 << 30))))
        out['vals'] = [cur[i] for i in real]
        return out


def zrat(f):
    return z3.RealVal(str(f) if f.denominator != 1 else f.numerator)


# ------------------------------------------------------------------ explorer
class Explorer:
    def __init__(self, program, entry, opts):
        self.program = program
        self.entry = entry
        self.st = Stats()
        self.cache = {}
        self.nl_timeout = opts.get("nl_timeout", 3000)
        self.audit = opts.get("audit", False)
        self.steps = opts.get("steps", 4000000)
        self.use_fork = opts.get("fork", True)
        self.stop_on_violation = opts.get("stop", True)
        self.arg = opts.get("arg")
        self.slice_end = 1e18
        self.slice_p0 = 0
        self.path_timeout = opts.get("path_timeout", 300)

    def run_path(self, prefix, model):
        """execute one path; returns list of new work items"""
        p = Path(self, prefix, model)
        Ctx.cur = p
        del rt.STACK[:]
        rt.S[0] = self.steps
        self.program.reset_globals()
        self.program.bind_std()
        st0 = self.st
        viol = None
        try:
            try:
                if self.arg is not None:
                    self.program.fn(self.entry)(self.arg)
                else:
                    self.program.fn(self.entry)()
            except ExitC as e:
                raise Violation("exit", "program called exit(%s) unexpectedly" % e.code)
            except RecursionError:
                raise Violation("nontermination", "unbounded recursion")
            self.st.paths += 1
        except PathDone:
            return p.new
        except Infeasible:
            self.st.infeasible += 1
        except Inconclusive as e:
            k = str(e)[:120]
            self.st.inconclusive[k] = self.st.inconclusive.get(k, 0) + 1
        except Violation as e:
            viol = e
            self.st.paths += 1
        except Exception as e:
            import traceback
            k = "engine: " + traceback.format_exc()[-700:]
            self.st.inconclusive[k] = self.st.inconclusive.get(k, 0) + 1
        st = self.st
        for k, v in p.checks.items():
            st.checks[k] = st.checks.get(k, 0) + v
        st.called |= rt.CALLED
        rt.CALLED.clear()
        st.maxsteps = max(st.maxsteps, self.steps - rt.S[0])
        if p.uncertain:
            st.uncertain_paths += 1
        if viol is not None:
            self.record(p, viol)
        elif len(st.samples) < 2:
            st.samples.append({"decisions": len(p.trace), "notes": p.notes[:4], "inputs": self.inputs_of(p, p.vals)[:24]})
        if p.child is not False:
            # forked child: report and leave
            try:
                data = pickle.dumps((self.st, p.new))
                v = memoryview(data)
                while v:
                    n = os.write(p.child, v)
                    v = v[n:]
                os.close(p.child)
            finally:
                os._exit(0)
        return p.new

    def inputs_of(self, p, vals):
        out = []
        for k, x in p.inputs:
            if k == 'r':
                out.append(float(vals[x]))
            elif k == 'l':
                out.append(0 if not x.on else [i for i, a in enumerate(x.alts) if a is x.val][0])
            else:
                out.append(x)
        return out

    def record(self, p, viol):
        try:
            dm = p.dyadic_model()
        except Exception as e:
            dm = None
        if dm is None and p.uncertain:
            k = "violation on a path whose feasibility is unknown"
            self.st.inconclusive[k] = self.st.inconclusive.get(k, 0) + 1
            return
        vals = dm['vals'] if dm else p.vals
        self.st.violations.append({"kind": viol.kind, "msg": viol.msg, "inputs": self.inputs_of(p, vals), "entry": self.entry,
                                   "inexact": bool(dm and dm.get('inexact')), "model": bool(dm), "noisy": [n for n, x in enumerate(p.inputs) if x[0] == 'r'] if p.noisy else []})

    # --- sequential slice
    def run_slice(self, items, seconds):
        self.st = Stats()
        stack = list(items)
        end = time.time() + seconds
        self.slice_end = end
        first = True
        while stack and (first or time.time() < end):
            first = False
            self.slice_p0 = self.st.paths
            pf, mo = stack.pop()
            stack.extend(self.run_path(pf, mo))
            if self.st.violations and self.stop_on_violation:
                break
        return self.st, stack


def _worker(ex, rfd, wfd):
    os.setpgid(0, 0)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    rf = os.fdopen(rfd, 'rb')
    wf = os.fdopen(wfd, 'wb')
    try:
        while True:
            msg = pickle.load(rf)
            if msg is None:
                break
            items, secs = msg
            st, left = ex.run_slice(items, secs)
            pickle.dump((st, left), wf)
            wf.flush()
    except (EOFError, BrokenPipeError):
        pass
    os._exit(0)


def explore(ex, budget, workers=8, slice_s=1.0, max_viol=1, progress=False):
    """returns (Stats, exhausted)"""
    total = Stats()
    t0 = time.time()
    ws = []
    for _ in range(workers):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            for w in ws:
                os.close(w[1])
                os.close(w[2])
            _worker(ex, a, d)
        os.close(a)
        os.close(d)
        ws.append((pid, b, c))
    wf = {c: os.fdopen(b, 'wb') for _, b, c in ws}
    rf = {c: os.fdopen(c, 'rb') for _, b, c in ws}
    queue = [((), None)]
    idle = [c for _, _, c in ws]
    busy = {}
    exhausted = True
    last = t0
    try:
        while queue or busy:
            now = time.time()
            if now - t0 > budget:
                exhausted = False
                break
            if len(total.violations) >= max_viol:
                exhausted = False
                break
            while queue and idle:
                c = idle.pop()
                # give a share of the queue
                n = max(1, min(64, len(queue) // (2 * workers)))
                # oldest first (largest subtrees) when starved, newest otherwise
                batch = queue[:n]
                del queue[:n]
                secs = slice_s if len(queue) > 2 * workers else 0.2
                pickle.dump((batch, secs), wf[c])
                wf[c].flush()
                busy[c] = now
            r, _, _ = select.select(list(busy), [], [], 0.5)
            for c in r:
                try:
                    st, left = pickle.load(rf[c])
                except (EOFError, pickle.UnpicklingError):
                    total.inconclusive["worker died"] = total.inconclusive.get("worker died", 0) + 1
                    del busy[c]
                    continue
                total.merge(st)
                queue.extend(left)
                idle.append(c)
                del busy[c]
            if progress and time.time() - last > 5:
                last = time.time()
                print("[%.0fs] paths=%d queue=%d q=%d solver=%.0fs inc=%d" % (last - t0, total.paths, len(queue), total.queries, total.solver_s, sum(total.inconclusive.values())), file=sys.stderr)
    finally:
        for pid, _, _ in ws:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for pid, _, _ in ws:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
    total.pending = len(queue) + len(busy)
    return total, exhausted and not queue and not busy
