"""LLVM IR (textual, clang-18, after mem2reg) -> Python source.

Every IR function becomes one Python function over the runtime in rt.py.  The
translation is instruction by instruction; nothing is interpreted about what
the C code means.
"""
import re

INT_RE = re.compile(r"^i(\d+)$")


class IRError(Exception):
    pass


# ------------------------------------------------------------------ lexer
TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<md>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*:?)
 | (?P<p>[][(){}<>,=*|])
''', re.X)


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError("lex: " + s[i:i + 40])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    out.append(("eof", ""))
    return out


# types: ('i',n) ('d',) ('f',) ('p',) ('v',) ('a',n,T) ('s',[T],packed) ('n',name)
class Types:
    def __init__(self):
        self.named = {}

    def res(self, t):
        while t[0] == 'n':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            return min(16, max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()))
        if k in ('d', 'p'):
            return 8
        if k == 'f':
            return 4
        if k == 'a':
            return self.align(t[2])
        if k == 's':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] + [1])
        if k == 'x':
            return 16
        raise IRError("align %r" % (t,))

    def size(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k in ('d', 'p'):
            return 8
        if k == 'f':
            return 4
        if k == 'x':
            return 16
        if k == 'a':
            return t[1] * self.size(t[2])
        if k == 's':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        raise IRError("size %r" % (t,))

    def field(self, t, i):
        t = self.res(t)
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == i:
                return o, x
            o += self.size(x)
        raise IRError("field")

    def elems(self, t):
        t = self.res(t)
        return list(t[1]) if t[0] == 's' else [t[2]] * t[1]

    def elem(self, t, i):
        """offset and type of element i of an aggregate"""
        r = self.res(t)
        if r[0] == 'a':
            return i * self.size(r[2]), r[2]
        return self.field(r, i)

    def code(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                return 1
            return t[1] // 8 if t[1] in (8, 16, 32, 64) else None
        if k == 'd':
            return 'd'
        if k == 'p':
            return 'p'
        if k == 'f':
            return 'f'
        return None


class P:
    """token cursor"""

    def __init__(self, toks, ty):
        self.t = toks
        self.i = 0
        self.ty = ty

    def peek(self, k=0):
        return self.t[self.i + k][1]

    def kind(self, k=0):
        return self.t[self.i + k][0]

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError("expected %r got %r in %r" % (v, self.peek(), self.t))

    def istype(self):
        k, v = self.t[self.i]
        if k == 'loc':
            return v in self.ty.named
        if k == 'id':
            return bool(INT_RE.match(v)) or v in ('double', 'float', 'ptr', 'void', 'x86_fp80', 'label', 'metadata')
        return v in ('[', '{', '<')

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            t = ('n', v)
        elif k == 'id':
            m = INT_RE.match(v)
            if m:
                t = ('i', int(m.group(1)))
            elif v == 'double':
                t = ('d',)
            elif v == 'float':
                t = ('f',)
            elif v == 'ptr':
                t = ('p',)
            elif v == 'void':
                t = ('v',)
            elif v == 'x86_fp80':
                t = ('x',)
            elif v == 'opaque':
                t = ('s', [], False)
            elif v in ('label', 'metadata'):
                t = (v,)
            else:
                raise IRError("type " + v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            t = ('s', self._fields('}'), False)
        elif v == '<':
            if self.accept('{'):
                fs = self._fields('}')
                self.expect('>')
                t = ('s', fs, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError("type tok %r" % v)
        # function type (only in calls):  T (T, ...)
        return t

    def _fields(self, end):
        fs = []
        if self.accept(end):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(end):
                return fs
            self.expect(',')


PATTR = {'noundef', 'noalias', 'nocapture', 'nonnull', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
         'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'allocptr', 'allocalign', 'dead_on_unwind', 'writable'}


def skip_pattrs(p):
    while True:
        v = p.peek()
        if v in PATTR:
            p.next()
        elif v == 'align':
            p.next()
            p.next()
        elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'captures', 'range'):
            p.next()
            p.expect('(')
            d = 1
            while d:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
        else:
            return


def parse_hex_double(h):
    import struct
    return struct.unpack('>d', bytes.fromhex(h[2:].rjust(16, '0')))[0]


def cstr(tok):
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self):
        self.ty = Types()
        self.globals = {}    # name -> (type, initval or None, const)
        self.funcs = {}      # name -> Func
        self.decls = set()
        self.aliases = {}


class Func:
    pass


# constants (python-side representation):
# ('int',v) ('dbl',x) ('null',) ('undef',) ('zero',) ('glob',name,off) ('agg',[(type,const)]) ('bytes',b)
def parse_const(p, t, ty):
    k, v = p.t[p.i]
    if k == 'num':
        p.next()
        r = ty.res(t)
        if r[0] in ('d', 'f'):
            return ('dbl', float(v))
        return ('int', int(v))
    if k == 'hex':
        p.next()
        if v[2] in 'KMLHR':
            return ('x80', v)
        return ('dbl', parse_hex_double(v))
    if k == 'str':
        p.next()
        return ('bytes', cstr(v))
    if k == 'glob':
        p.next()
        return ('glob', unq(v), 0)
    if k == 'loc':
        p.next()
        return ('loc', v)
    if v == 'null':
        p.next()
        return ('null',)
    if v in ('undef', 'poison'):
        p.next()
        return ('undef',)
    if v == 'zeroinitializer':
        p.next()
        return ('zero',)
    if v == 'true':
        p.next()
        return ('int', 1)
    if v == 'false':
        p.next()
        return ('int', 0)
    if v == '[' or v == '{' or (v == '<' and p.peek(1) == '{'):
        p.next()
        packed = False
        if v == '<':
            p.next()
            packed = True
        end = {'[': ']', '{': '}', '<': '}'}[v]
        items = []
        if not p.accept(end):
            while True:
                et = p.type()
                items.append((et, parse_const(p, et, ty)))
                if p.accept(end):
                    break
                p.expect(',')
        if packed:
            p.expect('>')
        return ('agg', items)
    if v == 'getelementptr':
        p.next()
        while p.peek() in ('inbounds', 'nuw', 'nusw') or p.peek().startswith('inrange'):
            p.next()
        p.expect('(')
        st = p.type()
        p.expect(',')
        p.type()
        base = parse_const(p, ('p',), ty)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append(parse_const(p, it, ty)[1])
        p.expect(')')
        off = idx[0] * ty.size(st)
        cur = st
        for ix in idx[1:]:
            cur = ty.res(cur)
            if cur[0] == 'a':
                off += ix * ty.size(cur[2])
                cur = cur[2]
            else:
                o, cur = ty.field(cur, ix)
                off += o
        if base[0] == 'null':
            return ('int', off)
        return ('glob', base[1], base[2] + off)
    if v in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
        p.next()
        p.expect('(')
        st = p.type()
        c = parse_const(p, st, ty)
        p.expect('to')
        p.type()
        p.expect(')')
        return c
    raise IRError("const %r" % (p.t[p.i:],))


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def parse(text):
    mod = Module()
    ty = mod.ty
    lines = text.split('\n')
    # named types first
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            n, r = l.split(' = type ', 1)
            ty.named[n] = None
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            n, r = l.split(' = type ', 1)
            ty.named[n] = P(lex(r), ty).type()
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('@'):
            parse_global(l, mod)
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*\(', l)
            mod.decls.add(unq('@' + m.group(1)))
        elif l.startswith('define'):
            body = []
            j = i + 1
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            f = parse_func(l, body, mod)
            mod.funcs[f.name] = f
            i = j
        i += 1
    return mod


def parse_global(l, mod):
    name, rest = l.split(' = ', 1)
    p = P(lex(rest), mod.ty)
    ext = False
    while True:
        v = p.peek()
        if v in ('global', 'constant'):
            const = v == 'constant'
            p.next()
            break
        if v in ('external', 'extern_weak'):
            ext = True
        if v == 'alias':
            raise IRError("alias")
        if v == 'thread_local':
            p.next()
            if p.accept('('):
                while p.next() != ')':
                    pass
            continue
        p.next()
    t = p.type()
    init = None
    if not ext:
        init = parse_const(p, t, mod.ty)
    mod.globals[unq(name)] = (t, init, const)


def parse_func(l, body, mod):
    ty = mod.ty
    f = Func()
    p = P(lex(l), ty)
    p.expect('define')
    while not (p.istype()):
        v = p.next()
        if v in ('align', ):
            p.next()
    # skip return attrs mixed: type found
    f.ret = p.type()
    while p.kind() != 'glob':
        p.next()
    f.name = unq(p.next())
    p.expect('(')
    f.params = []
    f.vararg = False
    n = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True
                p.expect(')')
                break
            t = p.type()
            byval = None
            while p.kind() == 'id' and p.peek() != ',':
                if p.peek() == 'byval':
                    p.next()
                    p.expect('(')
                    byval = p.type()
                    p.expect(')')
                else:
                    j = p.i
                    skip_pattrs(p)
                    if p.i == j:
                        break
            if p.kind() == 'loc':
                nm = p.next()
            else:
                nm = '%' + str(n)
            n += 1
            f.params.append((t, nm, byval))
            if p.accept(')'):
                break
            p.expect(',')
    # number of unnamed values is irrelevant: names are textual
    f.blocks = []
    cur = None
    pending = None
    for ln in body:
        if pending is not None:       # switch tables span lines
            pending += ' ' + ln.strip()
            if ']' in ln:
                cur[1].append(pending)
                pending = None
            continue
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        if not ln.startswith(' '):
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            lab = '%' + m.group(1)
            cur = (lab, [])
            f.blocks.append(cur)
            continue
        if cur is None:
            cur = ('%<entry>', [])
            f.blocks.append(cur)
        s = ln.strip()
        if s.startswith('switch ') and not s.rstrip().endswith(']'):
            pending = s
            continue
        cur[1].append(s)
    return f


# ------------------------------------------------------------- code generation
def pyname(n):
    return "F_" + re.sub(r'[^A-Za-z0-9_]', '_', n)


M = {n: (1 << n) - 1 for n in (1, 8, 16, 32, 64)}


class Gen:
    def __init__(self, mod, externs):
        self.mod = mod
        self.ty = mod.ty
        self.externs = externs
        self.out = []
        self.gnames = {}
        self.used_ext = set()

    def gref(self, name):
        """python expression of pointer to global / function"""
        if name in self.mod.funcs or (name in self.mod.decls and name not in self.mod.globals):
            k = 'FP_' + re.sub(r'[^A-Za-z0-9_]', '_', name)
            self.gnames[k] = ('f', name)
        else:
            k = 'G_' + re.sub(r'[^A-Za-z0-9_]', '_', name)
            self.gnames[k] = ('g', name)
        return k

    def cexpr(self, c, t):
        k = c[0]
        if k == 'int':
            r = self.ty.res(t)
            if r[0] == 'p':
                return '(None, %d)' % c[1]
            if r[0] in ('d', 'f'):
                return repr(float(c[1]))
            n = r[1]
            v = c[1]
            if n > 1:
                v &= M.get(n, (1 << n) - 1)
                if v >= 1 << (n - 1):
                    v -= 1 << n
            return '(%d)' % v if v < 0 else str(v)
        if k == 'dbl':
            x = c[1]
            if x != x:
                return 'NAN'
            if x in (float('inf'), float('-inf')):
                return 'INF' if x > 0 else 'NINF'
            return '(%r)' % x
        if k == 'null':
            return 'NULL'
        if k == 'undef':
            if self.ty.res(t)[0] in ('a', 's'):
                return self.aggc([(x, ('undef',)) for x in self.ty.elems(t)])
            return 'UNDEF'
        if k == 'agg':
            return self.aggc(c[1])
        if k == 'zero':
            r = self.ty.res(t)
            if r[0] in ('a', 's'):
                return self.aggc([(x, ('zero',)) for x in self.ty.elems(t)])
            return {'i': '0', 'd': '0.0', 'f': '0.0', 'p': 'NULL'}[r[0]]
        if k == 'glob':
            g = self.gref(c[1])
            return g if c[2] == 0 else '(%s[0], %d)' % (g, c[2])
        raise IRError("const expr %r" % (c,))

    def aggc(self, items):
        return '(%s)' % ''.join(self.cexpr(c, t) + ', ' for t, c in items)

    def gen_module(self):
        for f in self.mod.funcs.values():
            n = len(self.out)
            try:
                FuncGen(self, f).run()
            except (IRError, IndexError, KeyError, TypeError, ValueError) as e:
                # outside the translator: whoever executes it gets no answer
                del self.out[n:]
                self.out += ['def %s(*A):' % pyname(f.name), '  CALLED.add(%r)' % f.name,
                             '  untranslated(%r, %r)' % (f.name, str(e)), '']
        return '\n'.join(self.out)


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CMP = {'eq': '==', 'ne': '!=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>=',
       'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}
FCMP = {'oeq': '%s == %s', 'ogt': '%s > %s', 'oge': '%s >= %s', 'olt': '%s < %s', 'ole': '%s <= %s',
        'une': '%s != %s', 'ugt': 'not (%s <= %s)', 'uge': 'not (%s < %s)', 'ult': 'not (%s >= %s)', 'ule': 'not (%s > %s)'}
CASTS = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'}


ISINF = re.compile(r'''(%\S+) = (?:tail )?call double @llvm\.fabs\.f64\(double (?:noundef )?(%\S+)\)[^\n]*
(%\S+) = fcmp oeq double \1, 0x7FF0000000000000
(%\S+) = bitcast double \2 to i64
(%\S+) = icmp slt i64 \4, 0
(%\S+) = select i1 \5, i32 -1, i32 1
(%\S+) = select i1 \3, i32 \6, i32 0(?=\n|$)''')


def isinf_idiom(ins):
    """clang's expansion of the macro isinf(), which looks at the sign bit"""
    t = "\n".join(ins)
    r = ISINF.sub(lambda m: "%s = infsign double %s" % (m.group(7), m.group(2)), t)
    return ins if r == t else r.split("\n")


class FuncGen:
    def __init__(self, g, f):
        self.g = g
        self.ty = g.ty
        self.f = f
        self.names = {}
        self.lines = []

    def v(self, name):
        n = self.names.get(name)
        if n is None:
            n = 'v%d' % len(self.names)
            self.names[name] = n
        return n

    def opnd(self, p, t):
        if p.kind() == 'loc':
            return self.v(p.next())
        if p.peek() == 'asm':
            raise IRError("asm")
        return self.g.cexpr(parse_const(p, t, self.ty), t)

    def run(self):
        f = self.f
        g = self.g
        blocks = f.blocks
        self.bidx = {lab: i for i, (lab, _) in enumerate(blocks)}
        if blocks[0][0] == '%<entry>':
            pass
        # parse blocks: phis, body lines, terminator
        self.parsed = []
        preds = {i: [] for i in range(len(blocks))}
        for bi, (lab, ins) in enumerate(blocks):
            ins = isinf_idiom(ins)
            phis = []
            body = []
            term = None
            for s in ins:
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = phi ', s)
                if m:
                    phis.append(self.parse_phi(m.group(1), s[m.end():]))
                    continue
                op = s.split(None, 1)[0]
                if op in ('br', 'ret', 'switch', 'unreachable'):
                    term = s
                else:
                    body.append(s)
            self.parsed.append([phis, body, term])
        self.terms = []
        for bi, (phis, body, term) in enumerate(self.parsed):
            tt = self.parse_term(term)
            self.terms.append(tt)
            for s in self.succ(tt):
                preds[s].append(bi)
        self.preds = preds
        # blocks to inline: exactly one predecessor edge
        self.inl = [len(preds[i]) == 1 and i != 0 for i in range(len(blocks))]
        # emit
        self.heads = [i for i in range(len(blocks)) if not self.inl[i] and (i == 0 or preds[i])]
        self.emitted_heads = list(self.heads)
        bodies = {}
        work = list(self.heads)
        done = set()
        while work:
            b = work.pop()
            if b in done:
                continue
            done.add(b)
            self.lines = []
            self.extra = []
            self.emit_block(b, 0, 0)
            bodies[b] = self.lines
            for e in self.extra:
                if e not in done:
                    work.append(e)
        order = sorted(bodies)
        single = len(order) == 1 and not any(self.jumps_to(order[0]) for _ in (0,)) if False else False
        params = ', '.join([self.v(nm) for _, nm, _ in f.params] + (['*VA'] if f.vararg else []))
        out = g.out
        out.append('def %s(%s):' % (pyname(f.name), params))
        out.append('  CALLED.add(%r)' % f.name)
        for t, nm, byval in f.params:
            if byval is not None:
                out.append('  %s = byval_copy(%s, %d)' % (self.v(nm), self.v(nm), self.ty.size(byval)))
        out.append('  SP = len(STACK)')
        out.append('  b = %d' % order[0])
        out.append('  while True:')
        out.append('   S[0] -= 1')
        out.append('   if S[0] < 0: out_of_steps()')

        def tree(lo, hi, ind):
            if hi - lo == 1:
                for l in bodies[order[lo]]:
                    out.append(' ' * ind + l)
                return
            mid = (lo + hi) // 2
            out.append(' ' * ind + 'if b < %d:' % order[mid])
            tree(lo, mid, ind + 1)
            out.append(' ' * ind + 'else:')
            tree(mid, hi, ind + 1)
        tree(0, len(order), 3)
        out.append('')

    def parse_phi(self, dst, rest):
        p = P(lex(rest), self.ty)
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            e = self.opnd(p, t)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            inc[lab] = e
            if not p.accept(','):
                break
        return (self.v(dst), inc)

    def parse_term(self, s):
        if s is None:
            raise IRError("no terminator")
        p = P(lex(s), self.ty)
        op = p.next()
        if op == 'br':
            if p.accept('label'):
                return ('br', self.lab(p.next()))
            t = p.type()
            c = self.opnd(p, t)
            p.expect(',')
            p.expect('label')
            a = self.lab(p.next())
            p.expect(',')
            p.expect('label')
            b = self.lab(p.next())
            return ('cbr', c, a, b)
        if op == 'ret':
            t = p.type()
            if t == ('v',):
                return ('ret', None)
            return ('ret', self.opnd(p, t))
        if op == 'switch':
            t = p.type()
            c = self.opnd(p, t)
            p.expect(',')
            p.expect('label')
            d = self.lab(p.next())
            p.expect('[')
            cs = []
            while not p.accept(']'):
                tt = p.type()
                k = self.opnd(p, tt)
                p.expect(',')
                p.expect('label')
                cs.append((k, self.lab(p.next())))
            return ('sw', c, d, cs)
        if op == 'unreachable':
            return ('unr',)
        raise IRError(op)

    def lab(self, l):
        if l in self.bidx:
            return self.bidx[l]
        if '%<entry>' in self.bidx:
            return self.bidx['%<entry>']
        raise IRError("label " + l)

    def succ(self, t):
        if t[0] == 'br':
            return [t[1]]
        if t[0] == 'cbr':
            return [t[2], t[3]]
        if t[0] == 'sw':
            return [t[2]] + [x[1] for x in t[3]]
        return []

    def w(self, ind, s):
        self.lines.append(' ' * ind + s)

    def jump(self, frm, to, ind, depth):
        phis = self.parsed[to][0]
        if phis:
            fl = self.f.blocks[frm][0]
            dst = []
            src = []
            for d, inc in phis:
                if fl in inc:
                    e = inc[fl]
                else:
                    # entry block without a label in the text
                    e = [v for k, v in inc.items() if k not in self.bidx]
                    if len(e) != 1:
                        raise IRError("phi")
                    e = e[0]
                if d != e:
                    dst.append(d)
                    src.append(e)
            if dst:
                self.w(ind, '%s = %s' % (', '.join(dst), ', '.join(src)))
        if self.inl[to] and depth < 40:
            self.emit_block(to, ind, depth + 1)
        else:
            self.extra.append(to)
            self.w(ind, 'b = %d' % to)
            self.w(ind, 'continue')

    def emit_block(self, bi, ind, depth):
        for s in self.parsed[bi][1]:
            self.instr(s, ind)
        t = self.terms[bi]
        if t[0] == 'br':
            self.jump(bi, t[1], ind, depth)
        elif t[0] == 'cbr':
            if t[1] in ('0', '1'):
                self.jump(bi, t[2] if t[1] == '1' else t[3], ind, depth)
                return
            self.w(ind, 'if %s:' % t[1])
            self.jump(bi, t[2], ind + 1, depth)
            self.w(ind, 'else:')
            self.jump(bi, t[3], ind + 1, depth)
        elif t[0] == 'sw':
            kw = 'if'
            for k, l in t[3]:
                self.w(ind, '%s %s == %s:' % (kw, t[1], k))
                self.jump(bi, l, ind + 1, depth)
                kw = 'elif'
            if t[3]:
                self.w(ind, 'else:')
                self.jump(bi, t[2], ind + 1, depth)
            else:
                self.jump(bi, t[2], ind, depth)
        elif t[0] == 'ret':
            self.w(ind, 'if len(STACK) > SP: popstack(SP)')
            self.w(ind, 'return' + ('' if t[1] is None else ' ' + t[1]))
        else:
            self.w(ind, 'unreachable()')

    # ------------------------------------------------------------ instructions
    def instr(self, s, ind):
        m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', s)
        dst = None
        if m:
            dst = self.v(m.group(1))
            s = s[m.end():]
        p = P(lex(s), self.ty)
        op = p.next()
        ty = self.ty
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'load':
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            a = self.opnd(p, ('p',))
            c = ty.code(t)
            if ty.res(t)[0] in ('a', 's'):
                self.w(ind, '%s = %s' % (dst, self.ldagg(a, t, 0)))
                return
            if c is None:
                raise IRError("load of %r" % (t,))
            if c == 'd':
                self.w(ind, '%s = ldd(%s)' % (dst, a))
            elif c == 'p':
                self.w(ind, '%s = ldp(%s)' % (dst, a))
            elif c == 'f':
                self.w(ind, '%s = ldf(%s)' % (dst, a))
            else:
                self.w(ind, '%s = ldi(%s, %d)' % (dst, a, c))
        elif op == 'store':
            p.accept('volatile')
            t = p.type()
            x = self.opnd(p, t)
            p.expect(',')
            p.type()
            a = self.opnd(p, ('p',))
            c = ty.code(t)
            if ty.res(t)[0] in ('a', 's'):
                self.w(ind, 'AG = %s' % x)
                self.stagg(a, t, 0, 'AG', ind)
                return
            if c is None:
                raise IRError("store of %r" % (t,))
            self.w(ind, 'st(%s, %s, %r, %d)' % (a, x, c, ty.size(t)))
        elif op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.expect(',')
            p.type()
            base = self.opnd(p, ('p',))
            const = 0
            dyn = []
            first = True
            cur = t
            while p.accept(','):
                it = p.type()
                isconst = p.kind() == 'num'
                e = self.opnd(p, it)
                if first:
                    sz = ty.size(cur)
                    first = False
                else:
                    r = ty.res(cur)
                    if r[0] == 'a':
                        cur = r[2]
                        sz = ty.size(cur)
                    elif r[0] == 's':
                        o, cur = ty.field(r, int(e))
                        const += o
                        continue
                    else:
                        raise IRError("gep")
                if isconst:
                    const += int(e.strip('()')) * sz
                else:
                    dyn.append(e if sz == 1 else '%s*%d' % (e, sz))
            if not dyn and const == 0:
                self.w(ind, '%s = %s' % (dst, base))
                return
            expr = ' + '.join(dyn + ([str(const)] if const else []))
            if base.startswith('v') or base.startswith('G_'):
                self.w(ind, '%s = (%s[0], %s[1] + %s)' % (dst, base, base, expr))
            else:
                self.w(ind, '%s = gepx(%s, %s)' % (dst, base, expr))
        elif op in BINOPS:
            flags = set()
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                flags.add(p.next())
            t = p.type()
            a = self.opnd(p, t)
            p.expect(',')
            b = self.opnd(p, t)
            n = ty.res(t)[1]
            self.binop(op, flags, n, dst, a, b, ind)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while not p.istype():
                p.next()
            t = p.type()
            a = self.opnd(p, t)
            p.expect(',')
            b = self.opnd(p, t)
            if op == 'fdiv':
                self.w(ind, '%s = fdiv(%s, %s)' % (dst, a, b))
            elif op == 'frem':
                self.w(ind, '%s = fmod_(%s, %s)' % (dst, a, b))
            else:
                self.w(ind, '%s = %s %s %s' % (dst, a, {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op], b))
            if t == ('f',):
                self.w(ind, '%s = tofloat32(%s)' % (dst, dst))
        elif op == 'fneg':
            while not p.istype():
                p.next()
            t = p.type()
            self.w(ind, '%s = -%s' % (dst, self.opnd(p, t)))
        elif op == 'icmp':
            pred = p.next()
            if pred == 'samesign':
                pred = p.next()
            t = p.type()
            a = self.opnd(p, t)
            p.expect(',')
            b = self.opnd(p, t)
            r = ty.res(t)
            if r[0] == 'p':
                if pred in ('eq', 'ne'):
                    self.w(ind, '%s = pcmp_eq(%s, %s)' % (dst, a, b) if pred == 'eq' else '%s = not pcmp_eq(%s, %s)' % (dst, a, b))
                else:
                    self.w(ind, '%s = pcmp(%s, %s) %s 0' % (dst, a, b, CMP[pred]))
                return
            if pred[0] == 'u':
                mm = M[r[1]]
                a = '(%s & %d)' % (a, mm)
                b = '(%s & %d)' % (b, mm)
            self.w(ind, '%s = %s %s %s' % (dst, a, CMP[pred], b))
        elif op == 'fcmp':
            pred = p.next()
            while not p.istype() or pred in ('fast', 'nnan', 'ninf', 'nsz'):
                pred = p.next()
            t = p.type()
            a = self.opnd(p, t)
            p.expect(',')
            b = self.opnd(p, t)
            if pred in FCMP:
                self.w(ind, '%s = %s' % (dst, FCMP[pred] % (a, b)))
            elif pred == 'uno':
                self.w(ind, '%s = %s' % (dst, 'is_nan(%s)' % a if a == b else '(is_nan(%s) or is_nan(%s))' % (a, b)))
            elif pred == 'ord':
                self.w(ind, '%s = not (is_nan(%s) or is_nan(%s))' % (dst, a, b))
            elif pred == 'one':
                self.w(ind, '%s = not (is_nan(%s) or is_nan(%s)) and %s != %s' % (dst, a, b, a, b))
            elif pred == 'ueq':
                self.w(ind, '%s = is_nan(%s) or is_nan(%s) or %s == %s' % (dst, a, b, a, b))
            elif pred == 'true':
                self.w(ind, '%s = 1' % dst)
            elif pred == 'false':
                self.w(ind, '%s = 0' % dst)
            else:
                raise IRError("fcmp " + pred)
        elif op in CASTS:
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = self.opnd(p, t)
            p.expect('to')
            t2 = p.type()
            self.cast(op, dst, a, ty.res(t), ty.res(t2), ind)
        elif op == 'select':
            while not p.istype():
                p.next()
            t = p.type()
            c = self.opnd(p, t)
            p.expect(',')
            t1 = p.type()
            a = self.opnd(p, t1)
            p.expect(',')
            t2 = p.type()
            b = self.opnd(p, t2)
            self.w(ind, '%s = %s if %s else %s' % (dst, a, c, b))
        elif op == 'infsign':
            t = p.type()
            self.w(ind, '%s = infsign(%s)' % (dst, self.opnd(p, t)))
        elif op == 'freeze':
            t = p.type()
            self.w(ind, '%s = %s' % (dst, self.opnd(p, t)))
        elif op == 'alloca':
            t = p.type()
            n = '1'
            if p.accept(','):
                if p.istype():
                    nt = p.type()
                    n = self.opnd(p, nt)
            self.w(ind, '%s = alloca(%d, %s)' % (dst, ty.size(t), n))
        elif op == 'call':
            self.call(p, dst, ind)
        elif op == 'extractvalue':
            t = p.type()
            a = self.opnd(p, t)
            e = a
            while p.accept(','):
                e += '[%s]' % p.next()
            self.w(ind, '%s = %s' % (dst, e))
        elif op == 'insertvalue':
            t = p.type()
            a = self.opnd(p, t)
            p.expect(',')
            t2 = p.type()
            b = self.opnd(p, t2)
            ix = []
            while p.accept(','):
                ix.append(p.next())
            self.w(ind, '%s = agset(%s, %s, (%s,))' % (dst, a, b, ', '.join(ix)))
        elif op == 'va_arg':
            raise IRError(s)
        else:
            raise IRError("instruction %s: %s" % (op, s))

    def addr(self, a, o):
        if o == 0:
            return a
        return 'gepx(%s, %d)' % (a, o)

    def ldagg(self, a, t, off):
        ty = self.ty
        r = ''
        for i in range(len(ty.elems(t))):
            o, x = ty.elem(t, i)
            if ty.res(x)[0] in ('a', 's'):
                e = self.ldagg(a, x, off + o)
            else:
                c = ty.code(x)
                if c is None:
                    raise IRError("load of %r" % (x,))
                d = self.addr(a, off + o)
                e = 'ld%s(%s)' % (c, d) if isinstance(c, str) else 'ldi(%s, %d)' % (d, c)
            r += e + ', '
        return '(%s)' % r

    def stagg(self, a, t, off, v, ind):
        ty = self.ty
        for i in range(len(ty.elems(t))):
            o, x = ty.elem(t, i)
            if ty.res(x)[0] in ('a', 's'):
                self.stagg(a, x, off + o, '%s[%d]' % (v, i), ind)
            else:
                c = ty.code(x)
                if c is None:
                    raise IRError("store of %r" % (x,))
                self.w(ind, 'st(%s, %s[%d], %r, %d)' % (self.addr(a, off + o), v, i, c, ty.size(x)))

    def binop(self, op, flags, n, dst, a, b, ind):
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        w = self.w
        if n == 1:
            py = {'and': '&', 'or': '|', 'xor': '^'}.get(op)
            if py is None:
                raise IRError("i1 " + op)
            if op == 'xor' and b == '1':
                w(ind, '%s = not %s' % (dst, a))
            else:
                w(ind, '%s = bool(%s) %s bool(%s)' % (dst, a, py, b))
            return
        if op in ('add', 'sub', 'mul'):
            o = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            w(ind, '%s = %s %s %s' % (dst, a, o, b))
            w(ind, 'if not %d <= %s <= %d: %s = ovf(%s, %d, %r, %r)' % (lo, dst, hi, dst, dst, n, 'nsw' in flags, op))
        elif op in ('and', 'or', 'xor'):
            w(ind, '%s = %s %s %s' % (dst, a, {'and': '&', 'or': '|', 'xor': '^'}[op], b))
        elif op in ('sdiv', 'srem', 'udiv', 'urem', 'shl', 'lshr', 'ashr'):
            w(ind, '%s = int_%s(%s, %s, %d, %r)' % (dst, op, a, b, n, 'nsw' in flags))

    def cast(self, op, dst, a, t, t2, ind):
        w = self.w
        if op == 'sext':
            if t[1] == 1:
                w(ind, '%s = -1 if %s else 0' % (dst, a))
            else:
                w(ind, '%s = %s' % (dst, a))
        elif op == 'zext':
            if t[1] == 1:
                w(ind, '%s = 1 if %s else 0' % (dst, a))
            else:
                w(ind, '%s = %s & %d' % (dst, a, M[t[1]]))
        elif op == 'trunc':
            if t2[1] == 1:
                w(ind, '%s = %s & 1' % (dst, a))
            else:
                w(ind, '%s = wrap(%s, %d)' % (dst, a, t2[1]))
        elif op in ('fptosi', 'fptoui'):
            w(ind, '%s = f2int(%s, %d, %r, %r)' % (dst, a, t2[1], op == 'fptosi', self.f.name))
        elif op == 'sitofp':
            w(ind, '%s = float(%s)' % (dst, a))
        elif op == 'uitofp':
            w(ind, '%s = float(%s & %d)' % (dst, a, M[t[1]]))
        elif op == 'bitcast':
            if t == t2:
                w(ind, '%s = %s' % (dst, a))
            elif t[0] == 'd':
                w(ind, '%s = d2bits(%s)' % (dst, a))
            elif t2[0] == 'd':
                w(ind, '%s = bits2d(%s)' % (dst, a))
            else:
                raise IRError("bitcast")
        elif op == 'ptrtoint':
            w(ind, '%s = ptr2int(%s)' % (dst, a))
        elif op == 'inttoptr':
            w(ind, '%s = int2ptr(%s)' % (dst, a))
        elif op == 'fptrunc':
            w(ind, '%s = tofloat32(%s)' % (dst, a))
        elif op == 'fpext':
            w(ind, '%s = %s' % (dst, a))

    def call(self, p, dst, ind):
        ty = self.ty
        while p.peek() in PATTR or p.peek() in ('fastcc', 'ccc') or p.peek() in ('align', 'range', 'dereferenceable', 'dereferenceable_or_null', 'nnan', 'fast', 'nsz'):
            if p.peek() in PATTR or p.peek() in ('align', 'range', 'dereferenceable', 'dereferenceable_or_null'):
                skip_pattrs(p)
            else:
                p.next()
        rt = p.type()
        if p.peek() == '(':     # function type
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        isglob = p.kind() == 'glob'
        if isglob:
            fn = unq(p.next())
        elif p.kind() == 'loc':
            fnv = self.v(p.next())
        else:
            raise IRError("call target")
        p.expect('(')
        args = []
        ats = []
        if not p.accept(')'):
            while True:
                if p.peek() == 'metadata':
                    # debug intrinsics etc.
                    return
                t = p.type()
                skip_pattrs(p)
                args.append(self.opnd(p, t))
                ats.append(t)
                if p.accept(')'):
                    break
                p.expect(',')
        al = ', '.join(args)
        pre = '%s = ' % dst if dst else ''
        if not isglob:
            self.w(ind, '%scall_indirect(%s%s)' % (pre, fnv, ''.join(', ' + a for a in args)))
            return
        if fn in self.g.mod.funcs:
            self.w(ind, '%s%s(%s)' % (pre, pyname(fn), al))
            return
        if fn.startswith('llvm.'):
            base = fn.split('.')[1]
            if base in ('dbg', 'lifetime', 'assume', 'experimental', 'donothing'):
                return
            if base == 'va_start':
                self.w(ind, 'va_start(%s, VA)' % args[0])
                return
            key = '.'.join(x for x in fn.split('.')[1:] if not re.match(r'^(p0|i\d+|f64)$', x))
            fn = 'llvm_' + key.replace('.', '_')
            if key in ('abs', 'ctpop', 'bswap', 'smax', 'smin', 'umax', 'umin'):
                al += ', bits=%d' % ty.res(ats[0])[1]
        if fn in ('printf', 'fprintf', 'snprintf', 'sprintf', '__printf_chk', '__fprintf_chk', 'dprintf'):
            pass
        self.g.used_ext.add(fn)
        self.w(ind, '%sX_%s(%s)' % (pre, fn, al))


def translate(text):
    mod = parse(text)
    g = Gen(mod, None)
    src = g.gen_module()
    return mod, src, g
