"""Real arithmetic normaliser.

Floating-point values are treated as mathematical reals (listed as an assumption in the
evidence); a value carries a 'non-finite' flag that is a z3 condition (division by zero, square root
of a negative number, an explicit NAN).  Values are Laurent polynomials with rational coefficients
over atoms; an atom is a z3 Real term or inv(p) / sqrt(p) / f(p...) of polynomials.
"""
from fractions import Fraction
import z3


class Atoms:
    def __init__(self):
        self.key = {}
        self.info = []      # id -> (kind, data)
        self.z = []         # id -> z3 term
        self.sq = {}        # atom id -> polynomial dict equal to atom^2
        self.hooks = None   # engine: called with (z3 fact) when sqrt atoms are created
        self.pos = set()

    def get(self, key, kind, data, z):
        i = self.key.get(key)
        if i is None:
            i = len(self.info)
            self.key[key] = i
            self.info.append((kind, data))
            self.z.append(z)
        return i


A = Atoms()
MUL = z3.Function('mul', z3.RealSort(), z3.RealSort(), z3.RealSort())
INV = z3.Function('inv', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def rat(c):
    """whole numbers are kept as int: much cheaper to add and multiply"""
    c = Fraction(c)
    return c.numerator if c.denominator == 1 else c


ONE = {(): 1}
_UFS = {}


def fn_sym(name, n):
    k = (name, n)
    if k not in _UFS:
        _UFS[k] = z3.Function(name, *([z3.RealSort()] * (n + 1)))
    return _UFS[k]


def p_const(c):
    c = rat(c)
    return {(): c} if c else {}


def p_atom(i):
    return {((i, 1),): 1}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else c * s)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_scale(a, c):
    if not c:
        return {}
    return {m: v * c for m, v in a.items()}


def _mm(m1, m2):
    """product of monomials"""
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1; j += 1
        elif a[0] < b[0]:
            out.append(a); i += 1
        else:
            out.append(b); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)


def p_mul(a, b):
    r = {}
    need = False
    sq = A.sq
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mm(m1, m2)
            v = r.get(m)
            c = c1 * c2
            if v is None:
                r[m] = c
                if not need:
                    for at, e in m:
                        if e >= 2 and at in sq:
                            need = True
            else:
                v += c
                if v:
                    r[m] = v
                else:
                    del r[m]
    if need:
        r = p_reduce(r)
    return r


def p_reduce(a):
    """apply atom^2 -> polynomial rules until none applies"""
    sq = A.sq
    out = {}
    work = dict(a)
    while work:
        nxt = {}
        for m, c in work.items():
            hit = None
            for k, (at, e) in enumerate(m):
                if e >= 2 and at in sq:
                    hit = k
                    break
            if hit is None:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            at, e = m[hit]
            rest = m[:hit] + (((at, e - 2),) if e > 2 else ()) + m[hit + 1:]
            for m2, c2 in sq[at].items():
                mm = _mm(rest, m2)
                v = nxt.get(mm, 0) + c * c2
                if v:
                    nxt[mm] = v
                else:
                    nxt.pop(mm, None)
        work = nxt
    return out


def p_key(a):
    return tuple(sorted(a.items()))


_zcache = {}


def zmono(m):
    t = None
    for at, e in m:
        z = A.z[at]
        if e < 0:
            z = INV(z)
        for _ in range(abs(e)):
            t = z if t is None else MUL(t, z)
    return t


def p_z3(a):
    k = p_key(a)
    r = _zcache.get(k)
    if r is not None:
        return r
    ts = []
    for m, c in k:
        if not m:
            ts.append(z3.RealVal(c))
        else:
            t = zmono(m)
            ts.append(t if c == 1 else z3.RealVal(c) * t)
    if not ts:
        r = z3.RealVal(0)
    elif len(ts) == 1:
        r = ts[0]
    else:
        r = z3.Sum(ts)
    _zcache[k] = r
    return r


def p_content(a):
    """a = c * mono * monic; returns (c, mono, monic polynomial)"""
    ms = sorted(a)
    lead = ms[-1]
    c = a[lead]
    exps = {}
    for m in ms:
        for at, e in m:
            exps.setdefault(at, []).append(e)
    mono = []
    for at in sorted(exps):
        es = exps[at]
        lo = min(es) if len(es) == len(ms) else min(0, min(es))
        if lo:
            mono.append((at, lo))
    mono = tuple(mono)
    imono = tuple((at, -e) for at, e in mono)
    return c, mono, {_mm(m, imono): rat(Fraction(v) / c) for m, v in a.items()}


def p_inv(a):
    if len(a) == 1:
        (m, c), = a.items()
        return {tuple((at, -e) for at, e in m): rat(Fraction(1) / c)}
    c, mono, q = p_content(a)
    k = p_key(q)
    zq = p_z3(q)
    i = A.get(('inv', k), 'inv', q, INV(zq))
    return {_mm(((i, 1),), tuple((at, -e) for at, e in mono)): rat(Fraction(1) / c)}


def p_sqrt(a):
    if not a:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m and c > 0:
            n, d = c.numerator, c.denominator
            import math
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return {(): rat(Fraction(math.isqrt(n), math.isqrt(d)))}
    if a == ONE:
        return dict(ONE)
    k = p_key(a)
    za = p_z3(a)
    new = ('sqrt', k) not in A.key
    i = A.get(('sqrt', k), 'sqrt', a, SQRT(za))
    if new:
        A.sq[i] = a
    return p_atom(i)


def p_is_zero(a, clear=True):
    if not a:
        return True
    a = p_reduce(a)
    if not a:
        return True
    if not clear:
        return False
    for _ in range(60):
        # clear denominators: inv atoms and negative exponents
        best = None
        for m in a:
            for at, e in m:
                if A.info[at][0] == 'inv' and e > 0:
                    if best is None or at > best:
                        best = at
        if best is not None:
            mx = max(e for m in a for at, e in m if at == best)
            q = A.info[best][1]
            pw = [dict(ONE)]
            for _k in range(mx):
                pw.append(p_mul(pw[-1], q))
            r = {}
            for m, c in a.items():
                e = 0
                rest = m
                for k, (at, ee) in enumerate(m):
                    if at == best:
                        e = ee
                        rest = m[:k] + m[k + 1:]
                        break
                r = p_add(r, p_mul({rest: c}, pw[mx - e]))
            a = p_reduce(r)
            if not a:
                return True
            continue
        neg = {}
        for m in a:
            for at, e in m:
                if e < 0:
                    neg[at] = min(neg.get(at, 0), e)
        if neg:
            mul = tuple((at, -e) for at, e in sorted(neg.items()))
            a = p_reduce({_mm(m, mul): c for m, c in a.items()})
            if not a:
                return True
            continue
        return False
    return False


def p_surely_pos(a):
    """sum of squares with a positive constant (syntactic)"""
    if not a:
        return False
    if p_key(a) in POSITIVE:
        return True
    a = p_reduce(a)
    if p_key(a) in POSITIVE:
        return True
    if len(a) == 1:
        (m, c), = a.items()
        if m and c > 0 and all(at in A.pos or A.info[at][0] in ('sqrt', 'inv') and p_surely_pos(A.info[at][1]) for at, e in m):
            return True
    const = a.get((), 0)
    if const <= 0:
        return False
    return p_surely_nonneg(a)


SUMSQ = set()
POSITIVE = set()


def sumsq(fs):
    """sum of squares, remembered as non-negative"""
    s = F.of(0)
    sure = False
    for x in fs:
        s = s + x * x
        sure = sure or (len(x.p) == 1 and () in x.p)
    SUMSQ.add(p_key(s.p))
    if sure:
        known_positive(s)
    return s


def known_positive(s):
    POSITIVE.add(p_key(s.p))
    POSITIVE.add(p_key(p_reduce(s.p)))


def p_surely_nonneg(a):
    if p_key(a) in SUMSQ:
        return True
    for m, c in a.items():
        if c < 0:
            return False
        for at, e in m:
            if e % 2 and A.info[at][0] != 'sqrt' and at not in A.pos:
                return False
    return True


def p_sos_try(a):
    """a - (1) nonneg after using unit rules is handled by p_reduce; also try (sum of products)"""
    return p_surely_pos(a)


def zor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True or b is True:
        return True
    return z3.Or(a, b)


class F:
    """real value with a non-finite condition"""
    __slots__ = ('_p', '_t', 'nf')

    def __init__(self, p, nf=False):
        self._p = p
        self._t = None
        self.nf = nf

    @staticmethod
    def later(t, nf=False):
        """polynomial worked out when first looked at"""
        f = F(None, nf)
        f._t = t
        return f

    @property
    def p(self):
        if self._p is None:
            self._p, self._t = self._t(), None
        return self._p

    @staticmethod
    def of(x):
        if isinstance(x, F):
            return x
        if isinstance(x, (int, Fraction)):
            return F(p_const(x))
        if isinstance(x, float):
            return F(p_const(Fraction(repr(x))))
        if z3.is_int(x):
            return F(p_atom_z(z3.ToReal(x)))
        if z3.is_real(x):
            return F(p_atom_z(x))
        raise TypeError('F.of %r' % (x,))

    def const(self):
        if not self.p:
            return Fraction(0)
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        return None

    def z(self):
        return p_z3(self.p)

    def __add__(self, o):
        o = F.of(o)
        if self._p is None or o._p is None:
            return F.later(lambda: p_add(self.p, o.p), zor(self.nf, o.nf))
        return F(p_add(self.p, o.p), zor(self.nf, o.nf))
    __radd__ = __add__

    def __sub__(self, o):
        o = F.of(o)
        if self._p is None or o._p is None:
            return F.later(lambda: p_add(self.p, o.p, -1), zor(self.nf, o.nf))
        return F(p_add(self.p, o.p, -1), zor(self.nf, o.nf))

    def __rsub__(self, o):
        return F.of(o) - self

    def __neg__(self):
        if self._p is None:
            return F.later(lambda: p_scale(self.p, -1), self.nf)
        return F(p_scale(self.p, -1), self.nf)

    def __mul__(self, o):
        if not isinstance(o, (F, int, float, Fraction)) and not z3.is_expr(o):
            return NotImplemented
        o = F.of(o)
        if self._p is None or o._p is None:
            return F.later(lambda: p_mul(self.p, o.p), zor(self.nf, o.nf))
        return F(p_mul(self.p, o.p), zor(self.nf, o.nf))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = F.of(o)
        c = o.const()
        if c is not None:
            if c == 0:
                return F(p_atom_z(z3.Real('undef_div0')), True)
            return F(p_scale(self.p, rat(Fraction(1) / c)), zor(self.nf, o.nf))
        nf = zor(self.nf, o.nf)
        if not p_surely_pos(o.p):
            nf = zor(nf, p_z3(o.p) == 0)
        return F(p_mul(self.p, p_inv(o.p)), nf)

    def __rtruediv__(self, o):
        return F.of(o) / self

    def sqrt(self):
        nf = self.nf
        if not p_surely_nonneg(self.p):
            nf = zor(nf, p_z3(self.p) < 0)
        return F(p_sqrt(self.p), nf)

    def _cmp(self, o, op):
        o = F.of(o)
        d = p_reduce(p_add(self.p, o.p, -1))
        nf = zor(self.nf, o.nf)
        if not d or (len(d) == 1 and () in d):
            c = d.get((), Fraction(0))
            b = {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
        else:
            b = None
            if op == '<' and p_surely_nonneg(d):
                b = False
            elif op == '<=' and p_surely_nonneg(p_scale(d, -1)):
                b = True
            elif op == '<' and p_surely_pos(p_scale(d, -1)):
                b = True
            elif op == '<=' and p_surely_pos(d):
                b = False
            elif op == '==' and (p_surely_pos(d) or p_surely_pos(p_scale(d, -1))):
                b = False
            if b is None and len(d) > 150:
                # comparison of very large expressions: outcome left open (the same for the same operands)
                from . import eng
                key = ('big', op, p_key(d))
                b = eng.E.nfcmp.get(key)
                if b is None:
                    b = eng.E.nfcmp[key] = eng.E.fresh_bool('bigcmp')
            if b is None:
                zl, zr = self.z(), o.z()
                b = {'<': zl < zr, '<=': zl <= zr, '==': zl == zr}[op]
        if nf is False:
            return b
        from . import eng
        # the outcome on a NaN or an infinity is unknown but the same for the same operands
        key = (op, p_key(self.p), p_key(o.p), nf if nf is True else nf.get_id())
        fb = eng.E.nfcmp.get(key)
        if fb is None:
            fb = eng.E.fresh_bool('nfcmp')
            eng.E.nfcmp[key] = fb
            eng.E.keep.append(nf)
        zb = z3.BoolVal(b) if isinstance(b, bool) else b
        znf = z3.BoolVal(nf) if isinstance(nf, bool) else nf
        return z3.If(znf, fb, zb)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return F.of(o)._cmp(self, '<')

    def __ge__(self, o):
        return F.of(o)._cmp(self, '<=')

    def cmpeq(self, o):
        return self._cmp(o, '==')

    def __repr__(self):
        return 'F(%s%s)' % (p_str(self.p), '' if self.nf is False else ' nf:%s' % self.nf)


def p_atom_z(z):
    i = A.get(('z', z.get_id()), 'z', z, z)
    # keep z alive (data holds a reference)
    return p_atom(i)


def fn(name, *args):
    args = [F.of(a) for a in args]
    k = ('fn', name, tuple(p_key(a.p) for a in args))
    z = fn_sym(name, len(args))(*[a.z() for a in args])
    i = A.get(k, 'fn', (name, args), z)
    nf = False
    for a in args:
        nf = zor(nf, a.nf)
    return F(p_atom(i), nf)


def declare_unit(q):
    """register w^2 = 1 - x^2 - y^2 - z^2 for four atom-valued components"""
    ids = []
    for c in q:
        if len(c.p) != 1:
            return False
        (m, v), = c.p.items()
        if v != 1 or len(m) != 1 or m[0][1] != 1:
            return False
        ids.append(m[0][0])
    w, x, y, z = ids
    one = dict(ONE)
    r = one
    for t in (x, y, z):
        r = p_add(r, {((t, 2),): 1}, -1)
    A.sq[w] = r
    return True


def p_str(p):
    out = []
    for m, c in sorted(p.items()):
        s = '*'.join((str(A.z[a]) if A.info[a][0] == 'z' else A.info[a][0] + str(a)) + ('' if e == 1 else '^%d' % e) for a, e in m)
        out.append('%s%s' % (c if c != 1 or not s else '', ('*' if c != 1 and s else '') + s))
    return ' + '.join(out) or '0'
