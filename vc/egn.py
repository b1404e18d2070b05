"""Eigen semantics used by the repository (trusted library contracts), on exact reals."""
import z3
from fractions import Fraction
from . import eng, fl
from .eng import *
from .fl import F
from .stl import ld, st, add, sub, need_dims, lt, coerce

SMALL = 40


# ------------------------------------------------------------ abstract matrix terms
class Term:
    """non-commutative polynomial: {word: coefficient F-key}; word = tuple of (atom name, transposed)"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def key(self):
        return tuple(sorted((w, fl.p_key(c.p)) for w, c in self.d.items()))

    def __eq__(self, o):
        return isinstance(o, Term) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


SYMM = set()
ORTH = set()        # atoms whose transpose is their inverse (square orthogonal factors)
INVP = {}           # symmetric atom -> the symmetric atom it is the inverse of


def w_reduce(w):
    out = []
    for a in w:
        if out:
            b = out[-1]
            if a[0] == b[0] and a[0] in ORTH and a[1] != b[1]:
                out.pop()
                continue
            if INVP.get(a[0], ()) == b[0] or INVP.get(b[0], ()) == a[0]:
                out.pop()
                continue
        out.append(a)
    return tuple(out)


def t_atom(name, symm=False):
    if symm:
        SYMM.add(name)
    return Term({((name, False),): F.of(1)})


def t_id():
    return Term({(): F.of(1)})


def t_add(a, b, s=1):
    if a is None or b is None:
        return None
    d = dict(a.d)
    for w, c in b.d.items():
        v = d[w] + c * s if w in d else c * s
        if v.p:
            d[w] = v
        else:
            d.pop(w, None)
    return Term(d)


def t_mul(a, b):
    if a is None or b is None:
        return None
    d = {}
    for w1, c1 in a.d.items():
        for w2, c2 in b.d.items():
            w = w_reduce(w1 + w2)
            c = c1 * c2
            if w in d:
                c = d[w] + c
            if c.p:
                d[w] = c
            else:
                d.pop(w, None)
    return Term(d)


def t_scale(a, s):
    if a is None:
        return None
    s = F.of(s)
    return Term({w: c * s for w, c in a.d.items() if (c * s).p})


def t_tr(a):
    if a is None:
        return None
    return Term({tuple((n, (not t) if n not in SYMM else False) for n, t in reversed(w)): c for w, c in a.d.items()})


def t_inv(a):
    """inverse of a symmetric matrix, as an atom"""
    if a is None:
        return None
    k = a.key()
    nm = ('inv', k)
    symm = t_tr(a) == a
    if symm and len(a.d) == 1:
        (w, c), = a.d.items()
        if len(w) == 1 and c.p == F.of(1).p:
            INVP[nm] = w[0][0]
    return t_atom(nm, symm)


_tname = {}


def t_elem(t):
    k = t.key()
    if k not in _tname:
        _tname[k] = z3.Function('mel_%d' % len(_tname), INT, INT, REAL)
    f = _tname[k]
    return lambda i, j: F(fl.p_atom_z(f(zi(i), zi(j))))


def term_of(m):
    t = m.term
    if isinstance(t, tuple) and t and t[0] == 'sym':
        t = t_atom(t[1], t[1] in SYMM)
        m.term = t
    return t


# ------------------------------------------------------------ matrices
def mat(r, c, l, term=None):
    return M(r, c, list(l), term=term)


def from_fn(r, c, f, term=None):
    if isinstance(r, int) and isinstance(c, int) and r * c <= SMALL * SMALL:
        return M(r, c, [F.of(f(i, j)) for i in range(r) for j in range(c)], term=term)
    return M(r, c, f=lambda i, j: F.of(f(i, j)), term=term)


def const(r, c, v):
    return from_fn(r, c, lambda i, j: F.of(v), Term({}) if v == 0 else None)


def ident(r, c=None):
    c = r if c is None else c

    def f(i, j):
        return eng.E.pick(eqt(i, j), lambda: F.of(1), lambda: F.of(0))
    return from_fn(r, c, f, t_id())


def same_dims(a, b):
    ok = band(eqt(a.rows, b.rows), eqt(a.cols, b.cols))
    if ok is not True:
        eng.E.oblige('matrix operands have equal dimensions', ok)


def madd(a, b, s=1):
    same_dims(a, b)
    r = a.rows if isinstance(a.rows, int) else b.rows
    c = a.cols if isinstance(a.cols, int) else b.cols
    t = t_add(term_of(a), term_of(b), s) if term_of(a) is not None and term_of(b) is not None else None
    return from_fn(r, c, (lambda i, j: a.get(i, j) + b.get(i, j)) if s == 1 else (lambda i, j: a.get(i, j) - b.get(i, j)), t)


def mscale(a, s):
    s = F.of(s)
    return from_fn(a.rows, a.cols, lambda i, j: a.get(i, j) * s, t_scale(term_of(a), s))


def mdiv(a, s):
    s = F.of(s)
    return from_fn(a.rows, a.cols, lambda i, j: a.get(i, j) / s)


def mtr(a):
    return from_fn(a.cols, a.rows, lambda i, j: a.get(j, i), t_tr(term_of(a)))


def mmul(a, b):
    ok = eqt(a.cols, b.rows)
    if ok is not True:
        eng.E.oblige('matrix product dimensions match', ok)
    n = a.cols if isinstance(a.cols, int) else b.rows
    ta, tb = term_of(a), term_of(b)
    t = t_mul(ta, tb)
    if isinstance(n, int) and n <= SMALL:
        def f(i, j):
            nf = False
            xs, big = [], 0
            for k in range(n):
                x, y = a.get(i, k), b.get(k, j)
                nf = fl.zor(nf, fl.zor(x.nf, y.nf))
                xs.append((x, y))
                big += 1000 if x._p is None or y._p is None else len(x.p) * len(y.p)

            def total():
                p = {}
                for x, y in xs:
                    if x.p and y.p:
                        p = fl.p_add(p, fl.p_mul(x.p, y.p))
                return p
            return F.later(total, nf) if big > 300 else F(total(), nf)
        if n == 0:
            return from_fn(a.rows, b.cols, lambda i, j: F.of(0), t)
        return from_fn(a.rows, b.cols, f, t)
    if t is None:
        ta = ta or t_atom(('m', id(a)))
        tb = tb or t_atom(('m', id(b)))
        eng.E.keep.append((a, b))
        t = t_mul(ta, tb)
    return M(a.rows, b.cols, f=t_elem(t), term=t)


def t_eq(a, b):
    return a == b


def is1x1(m):
    return m.rows == 1 and m.cols == 1 if isinstance(m.rows, int) and isinstance(m.cols, int) else False


def dot(a, b):
    s = F.of(0)
    for x, y in zip(a.lst(), b.lst()):
        s = s + x * y
    return s


_SQN = {}


def sqnorm(a):
    if not a.dense():
        t = term_of(a) or t_atom(('m', id(a)))
        eng.E.keep.append(a)
        k = ('sqn', t.key())
        return F(fl.p_atom_z(z3.Real('sqn_%d' % _SQN.setdefault(k, len(_SQN)))))
    return fl.sumsq(F.of(x) for x in a.lst())


def norm(a):
    return sqnorm(a).sqrt()


def vec3(a):
    return a.lst()


def cross(a, b):
    x, y = a.lst(), b.lst()
    return mat(3, 1, [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


# ------------------------------------------------------------ quaternions
def qmul(a, b):
    aw, ax, ay, az = a.c
    bw, bx, by, bz = b.c
    r = Q(aw * bw - ax * bx - ay * by - az * bz,
          aw * bx + ax * bw + ay * bz - az * by,
          aw * by + ay * bw + az * bx - ax * bz,
          aw * bz + az * bw + ax * by - ay * bx)
    PRODQ[qkey(r)] = (a, b)
    return r


PRODQ = {}      # products of quaternions: |a b|^2 = |a|^2 |b|^2


def qkey(q):
    return tuple(fl.p_key(F.of(c).p) for c in q.c)


def qrotm(q):
    """Eigen toRotationMatrix (the exact formula, no normalisation)"""
    w, x, y, z = q.c
    tx, ty, tz = x * 2, y * 2, z * 2
    twx, twy, twz = tx * w, ty * w, tz * w
    txx, txy, txz = tx * x, ty * x, tz * x
    tyy, tyz, tzz = ty * y, tz * y, tz * z
    return mat(3, 3, [F.of(1) - (tyy + tzz), txy - twz, txz + twy,
                      txy + twz, F.of(1) - (txx + tzz), tyz - twx,
                      txz - twy, tyz + twx, F.of(1) - (txx + tyy)])


def qrotv(q, v):
    """Eigen _transformVector: v + w*uv2 + vec x uv2, uv2 = 2*(vec x v)"""
    w = q.c[0]
    u = mat(3, 1, q.c[1:])
    uv = cross(u, v)
    uv = mscale(uv, 2)
    return madd(madd(v, mscale(uv, w)), cross(u, uv))


def qsq(q):
    n = fl.sumsq([F.of(c) for c in q.c])
    ab = PRODQ.get(qkey(q))
    if ab and fl.p_key(n.p) not in fl.POSITIVE and all(fl.p_surely_pos(qsq(x).p) for x in ab):
        fl.known_positive(n)
    return n


def qnormed(q):
    n2 = qsq(q)
    if n2.const() == 1:
        return q
    n = n2.sqrt()
    return Q(*[c / n for c in q.c])


def qinv(q):
    n2 = qsq(q)
    w, x, y, z = q.c
    if n2.const() == 1:
        return Q(w, -x, -y, -z)
    return Q(w / n2, -x / n2, -y / n2, -z / n2)


def qconj(q):
    w, x, y, z = q.c
    return Q(w, -x, -y, -z)


def qfrommat(m):
    """quaternion of a rotation matrix: uninterpreted components of the nine entries"""
    a = m.lst()
    return Q(*[fl.fn('qmat_' + n, *a) for n in 'wxyz'])


# ------------------------------------------------------------ lvalue views
class MRef:
    """view of a sub-matrix of an lvalue"""

    def __init__(self, base, rows, cols, fwd, inv, blk=None):
        self.base, self.rows, self.cols, self.fwd, self.inv, self.blk = base, rows, cols, fwd, inv, blk
        self.el = False
        self.diag = False

    def whole(self):
        return ld(self.base)

    def load(self):
        b = self.whole()
        if isinstance(b, Q):
            b = mat(4, 1, b.c)
        fwd = self.fwd
        if self.el:
            return b.get(*fwd(0, 0))
        r = from_fn(self.rows, self.cols, lambda i, j: b.get(*fwd(i, j)), self.term(b))
        if self.diag:
            r.diag_of = b
        if self.blk is not None:
            eng.E.srcs[id(r)] = (r, self)
        return r

    def term(self, b):
        if self.blk is None:
            return None
        t = term_of(b)
        if t is None:
            return None
        return blk_term(t, b, self.blk[0], self.blk[1], self.rows, self.cols)

    def store(self, v):
        if isinstance(v, (Loc, MRef)):
            v = ld(v)
        if not isinstance(v, M):
            v = mat(1, 1, [F.of(v)])
        if isinstance(self.base, Loc) and kind_of(self.base.ty)[0] == 'quat' or isinstance(self.base, QVec):
            pass
        ok = band(eqt(self.rows, v.rows), eqt(self.cols, v.cols))
        if ok is not True:
            eng.E.oblige('assigned block has the same dimensions', ok)
        b = self.whole()
        self.alias(v)
        inv = self.inv
        if isinstance(b, Q):
            b4 = mat(4, 1, b.c)

            def f4(i):
                c, x, y = inv(i, 0)
                return eng.E.pick(c, lambda: v.get(x, y), lambda: b4.get(i, 0))
            st(self.base, Q(*[f4(i) for i in range(4)]))
            return

        def f(i, j):
            c, x, y = inv(i, j)
            return eng.E.pick(c, lambda: v.get(x, y), lambda: b.get(i, j))
        t = None
        if self.diag and getattr(v, 'shifted', None) and v.shifted[0] is b and term_of(b) is not None:
            t = t_add(term_of(b), t_scale(t_id(), v.shifted[1]))
        st(self.base, from_fn(b.rows, b.cols, f, t))

    def alias(self, v):
        s = eng.E.srcs.get(id(v))
        if s is None or s[0] is not v or self.blk is None or s[1].blk is None:
            return
        o = s[1]
        if not (isinstance(o.base, Loc) and isinstance(self.base, Loc) and o.base.same(self.base)):
            return
        (r0, c0), (r1, c1) = self.blk, o.blk
        same = band(eqt(r0, r1), eqt(c0, c1))
        disj = bor(le(add(r0, self.rows), r1), le(add(r1, self.rows), r0), le(add(c0, self.cols), c1), le(add(c1, self.cols), c0))
        eng.E.oblige('block assignment does not overlap its source', bor(same, disj))


def blk_term(t, b, r0, c0, rows, cols):
    if same_term(rows, b.rows) and same_term(cols, b.cols) and r0 == 0 and c0 == 0:
        return t
    return t_atom(('blk', t.key(), str(zs(r0)), str(zs(c0)), str(zs(rows)), str(zs(cols))))


def zs(x):
    return z3.simplify(x) if isz(x) else x


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return lit(z3.simplify(zi(a) <= zi(b)))


class QVec:
    pass


def block_ref(base, r0, c0, rows, cols):
    dims = dims_of(base)
    ok = band(le(0, r0), le(add(r0, rows), dims[0]), le(0, c0), le(add(c0, cols), dims[1]), le(0, rows), le(0, cols))
    if ok is not True:
        eng.E.oblige('block inside matrix', ok)
    if isinstance(base, MRef) and base.blk is not None and isinstance(base.base, Loc):
        return block_ref(base.base, add(base.blk[0], r0), add(base.blk[1], c0), rows, cols)
    return MRef(base, rows, cols, lambda i, j: (add(i, r0), add(j, c0)),
                lambda i, j: (band(le(r0, i), lt(i, add(r0, rows)), le(c0, j), lt(j, add(c0, cols))), sub(i, r0), sub(j, c0)),
                (r0, c0))


def el_ref(base, i, j):
    r = block_ref(base, i, j, 1, 1)
    r.el = True
    return r


def tr_ref(base):
    r, c = dims_of(base)
    return MRef(base, c, r, lambda i, j: (j, i), lambda i, j: (True, j, i))


def diag_ref(base):
    r, c = dims_of(base)
    if isinstance(r, int) and isinstance(c, int):
        n = min(r, c)
    elif same_term(r, c):
        n = r
    else:
        n = ite(lt(r, c), r, c)
    m = MRef(base, n, 1, lambda i, j: (i, i), lambda i, j: (eqt(i, j), i, 0))
    m.diag = True
    return m


def dims_of(x):
    if isinstance(x, MRef):
        return x.rows, x.cols
    if isinstance(x, M):
        return x.rows, x.cols
    if isinstance(x, Loc):
        k = kind_of(x.ty)
        if k[0] == 'mat':
            return k[1], k[2]
        if k[0] == 'quat':
            return 4, 1
        v = ld(x)
        return v.rows, v.cols
    if isinstance(x, Q):
        return 4, 1
    if isinstance(x, RM):
        return dims_of(x.v)
    raise Unsupported('dims of %r' % (x,))


class RM:
    """value wrapped as a read-only pseudo location"""

    def __init__(self, v):
        self.v = v

    def load(self):
        return self.v

    def store(self, v):
        raise Unsupported('store to an rvalue')


RQ = RM


def view(base, mk):
    """apply a view constructor to an lvalue or a value"""
    if isinstance(base, (Loc, MRef)):
        return mk(base)
    r = mk(RM(base)).load()
    return r


def is_eig(x):
    if isinstance(x, MRef):
        return not x.el
    return isinstance(x, (M, Q)) or isinstance(x, Loc) and kind_of(x.ty) is not None and kind_of(x.ty)[0] in ('mat', 'dyn', 'quat')


# ------------------------------------------------------------ comma initialiser
class Comma:
    def __init__(self, target):
        self.target = target
        self.vals = []

    def push(self, v):
        v = ld(v)
        if isinstance(v, M) and not is1x1(v):
            r, c = dims_of(self.target)
            if v.cols == 1 and c == 1:
                self.vals.extend(v.lst())
            else:
                raise Unsupported('comma initialiser with blocks')
        else:
            self.vals.append(F.of(v.get(0, 0) if isinstance(v, M) else v))
        r, c = dims_of(self.target)
        if isinstance(r, int) and isinstance(c, int):
            if len(self.vals) == r * c:
                st(self.target, mat(r, c, self.vals))
            elif len(self.vals) > r * c:
                eng.E.oblige('comma initialiser has the right number of coefficients', False)
        else:
            raise Unsupported('comma initialiser of a dynamic matrix')
        return self


# ------------------------------------------------------------ decompositions (dependency contracts)
def solve_spd(a, b, kind='ldlt'):
    """x = a.ldlt().solve(b): x is a function of (a, b) with a x = b whenever a is invertible (trusted)"""
    eng.E.assumptions.add('Eigen %s().solve(b): deterministic function of matrix and right-hand side (solution of A x = b for non-singular A)' % kind)
    n = a.rows
    args = a.lst() + b.lst()
    return mat(n, b.cols, [fl.fn('%s_%d_%d_%d' % (kind, n, b.cols, i), *args) for i in range(n * b.cols)])


# ------------------------------------------------------------ member calls
def static_args(n, ty):
    """template integers of a block-like call, read from its result type"""
    from .front import tystr, tmpl, _strip_cv
    s = _strip_cv(tystr(n))
    name, args = tmpl(s)
    return name, args


def blk_sizes(n):
    name, args = static_args(n, None)
    if name is None or args is None:
        return None
    b = name.split('::')[-1]
    if b == 'Block' and len(args) >= 3:
        return int(args[1]), int(args[2])
    if b == 'VectorBlock':
        return int(args[1]), None
    return None


def method(x, o, name, args, n):
    """o: lvalue/value of an Eigen object"""
    E = eng.E
    V = lambda i: ld(x.ev(args[i]))
    isq = isinstance(ld(o), Q) if not isinstance(o, MRef) else False
    if isq:
        return qmethod(x, o, name, args, n)
    if name in ('x', 'y', 'z', 'w') and not args:
        i = 'xyzw'.index(name)
        return view(o, lambda b: el_ref(b, i, 0) if dims_of(b)[1] == 1 else el_ref(b, 0, i))
    if name in ('operator()', 'coeff', 'coeffRef', 'operator[]'):
        i = V(0)
        r, c = dims_of(o)
        if len(args) == 1:
            if c == 1:
                return view(o, lambda b: el_ref(b, i, 0))
            return view(o, lambda b: el_ref(b, 0, i))
        j = V(1)
        return view(o, lambda b: el_ref(b, i, j))
    if name == 'block':
        sz = blk_sizes(n)
        i, j = V(0), V(1)
        if len(args) == 4:
            r, c = V(2), V(3)
        else:
            r, c = sz
        return view(o, lambda b: block_ref(b, i, j, r, c))
    if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        R, C = dims_of(o)
        if len(args) == 2:
            r, c = V(0), V(1)
        else:
            r, c = blk_sizes(n)
        i = 0 if name.startswith('top') else sub(R, r)
        j = 0 if 'Left' in name else sub(C, c)
        return view(o, lambda b: block_ref(b, i, j, r, c))
    if name in ('leftCols', 'rightCols', 'topRows', 'bottomRows', 'middleRows', 'middleCols'):
        R, C = dims_of(o)
        sz = blk_sizes(n)
        if name.startswith('middle'):
            i0 = V(0)
            k = V(1) if len(args) == 2 else (sz[0] if name == 'middleRows' else sz[1])
            if name == 'middleRows':
                return view(o, lambda b: block_ref(b, i0, 0, k, C))
            return view(o, lambda b: block_ref(b, 0, i0, R, k))
        k = V(0) if args else (sz[1] if 'Cols' in name else sz[0])
        if name == 'leftCols':
            return view(o, lambda b: block_ref(b, 0, 0, R, k))
        if name == 'rightCols':
            return view(o, lambda b: block_ref(b, 0, sub(C, k), R, k))
        if name == 'topRows':
            return view(o, lambda b: block_ref(b, 0, 0, k, C))
        return view(o, lambda b: block_ref(b, sub(R, k), 0, k, C))
    if name in ('row', 'col'):
        R, C = dims_of(o)
        i = V(0)
        return view(o, lambda b: block_ref(b, i, 0, 1, C) if name == 'row' else block_ref(b, 0, i, R, 1))
    if name in ('segment', 'head', 'tail'):
        R, C = dims_of(o)
        n_ = R if C == 1 else C
        sz = blk_sizes(n)
        if name == 'segment':
            s = V(0)
            k = V(1) if len(args) == 2 else sz[0]
        else:
            k = V(0) if args else sz[0]
            s = 0 if name == 'head' else sub(n_, k)
        if C == 1:
            return view(o, lambda b: block_ref(b, s, 0, k, 1))
        return view(o, lambda b: block_ref(b, 0, s, 1, k))
    if name == 'diagonal':
        return view(o, diag_ref)
    if name in ('transpose',):
        return view(o, tr_ref) if isinstance(o, (Loc, MRef)) and False else mtr(ld(o))
    if name in ('array', 'matrix', 'eval', 'noalias', 'derived', 'real', 'conjugate', 'adjoint', 'const_cast_derived'):
        if name == 'adjoint':
            return mtr(ld(o))
        return o
    if name == 'cast':
        return ld(o)
    if name in ('rows', 'cols', 'size'):
        r, c = dims_of(o)
        if name == 'rows':
            return r
        if name == 'cols':
            return c
        return r if c == 1 else (c if r == 1 else (r * c if isinstance(r, int) and isinstance(c, int) else zi(r) * zi(c)))
    if name in ('setZero', 'setIdentity', 'setOnes', 'setConstant'):
        a = [V(i) for i in range(len(args))]
        if name == 'setConstant':
            a = a[:-1] if False else a
        if len(a) == 2 and name != 'setConstant':
            r, c = a
        elif len(a) == 1 and name != 'setConstant':
            r, c = dims_of(o)
            if c == 1 or (isinstance(o, Loc) and o.ty.k == 'mat' and o.ty.a[1] == 1):
                r, c = a[0], 1
            else:
                r, c = 1, a[0]
        else:
            r, c = dims_of(o)
        v = ident(r, c) if name == 'setIdentity' else const(r, c, {'setZero': 0, 'setOnes': 1}.get(name, a[-1] if a else 0))
        st(o, v)
        return o
    if name in ('resize', 'conservativeResize'):
        a = [V(i) for i in range(len(args))]
        old = ld(o)
        if len(a) == 1:
            a = [a[0], 1] if (o.ty.a[1] == 1) else [1, a[0]]
        r, c = a
        ok = band(le(0, r), le(0, c))
        if ok is not True:
            E.oblige('resize to non-negative dimensions', ok)
        nm = E.fresh('rsz')
        so = [INT, INT]
        uf = z3.Function(nm, INT, INT, REAL)
        if name == 'resize':
            same = band(eqt(r, old.rows), eqt(c, old.cols))
            f = lambda i, j: E.pick(same, lambda: old.get(i, j), lambda: F(fl.p_atom_z(uf(zi(i), zi(j)))))
            if same is True:
                return o
        else:
            f = lambda i, j: E.pick(band(lt(i, old.rows), lt(j, old.cols)), lambda: old.get(i, j), lambda: F(fl.p_atom_z(uf(zi(i), zi(j)))))
        st(o, from_fn(r, c, f) if isinstance(r, int) and isinstance(c, int) and r * c <= 400 and old.dense() else M(r, c, f=f))
        return o
    if name == 'norm':
        return norm(ld(o))
    if name in ('squaredNorm',):
        return sqnorm(ld(o))
    if name in ('stableNorm', 'blueNorm'):
        return norm(ld(o))
    if name == 'normalized':
        v = ld(o)
        n2 = sqnorm(v)
        # Eigen: if (z > 0) v / sqrt(z) else v
        z = n2 > F.of(0)
        if E.decide(z):
            return mdiv(v, n2.sqrt())
        return v
    if name == 'normalize':
        v = method(x, o, 'normalized', args, n)
        st(o, v)
        return None
    if name == 'cross':
        return cross(ld(o), V(0))
    if name == 'dot':
        return dot(ld(o), V(0))
    if name == 'trace':
        v = ld(o)
        s = F.of(0)
        for i in range(v.rows):
            s = s + v.get(i, i)
        return s
    if name == 'sum':
        s = F.of(0)
        for t in ld(o).lst():
            s = s + t
        return s
    if name == 'inverse':
        v = ld(o)
        from .front import tystr
        if 'Array' in tystr(n) or 'scalar_inverse' in tystr(n):
            tv = term_of(v) if not v.dense() else None
            return from_fn(v.rows, v.cols, lambda i, j: F.of(1) / v.get(i, j), t_atom(('cwinv', tv.key())) if tv is not None else None)
        if v.dense():
            k = v.rows
            E.assumptions.add('Eigen matrix inverse: deterministic function of the matrix')
            return mat(k, k, [fl.fn('minv_%d_%d' % (k, i), *v.lst()) for i in range(k * k)])
        t = t_inv(term_of(v))
        return M(v.rows, v.cols, f=t_elem(t), term=t)
    if name in ('ldlt', 'llt', 'colPivHouseholderQr', 'fullPivLu', 'partialPivLu', 'householderQr', 'lu'):
        return Obj('dec', kind=name, m=ld(o))
    if name in ('jacobiSvd', 'bdcSvd'):
        return Obj('svd', m=ld(o))
    if name == 'asDiagonal':
        v = ld(o)
        t = None
        if v.dense():
            return from_fn(v.rows, v.rows, lambda i, j: E.pick(eqt(i, j), lambda: v.get(i, 0), lambda: F.of(0)))
        tv = term_of(v)
        t = t_atom(('diag', tv.key() if tv else id(v)), True)
        if tv is not None and len(tv.d) == 1:
            (w, c), = tv.d.items()
            if len(w) == 1 and isinstance(w[0][0], tuple) and w[0][0][0] == 'cwinv' and c.p == F.of(1).p:
                # diag(1/w) is the inverse of diag(w)
                INVP[('diag', tv.key())] = ('diag', w[0][0][1])
        eng.E.keep.append(v)
        return M(v.rows, v.rows, f=lambda i, j: E.pick(eqt(i, j), lambda: v.get(i, 0), lambda: F.of(0)), term=t)
    if name in ('operator const float', 'operator float', 'value'):
        return ld(o).get(0, 0)
    if name in ('swap',):
        b = x.ev(args[0])
        va, vb = ld(o), ld(b)
        st(o, vb)
        st(b, va)
        return None
    if name in ('hasNaN',):
        v = ld(o)
        r = False
        for t in v.lst():
            r = bor(r, t.nf)
        return r
    if name in ('allFinite',):
        v = ld(o)
        r = False
        for t in v.lst():
            r = bor(r, t.nf)
        return bnot(r)
    if name in ('cwiseAbs', 'abs'):
        v = ld(o)
        return from_fn(v.rows, v.cols, lambda i, j: x.fabs(v.get(i, j)))
    if name in ('cwiseProduct',):
        v, w = ld(o), V(0)
        return from_fn(v.rows, v.cols, lambda i, j: v.get(i, j) * w.get(i, j))
    if name == 'fill':
        r, c = dims_of(o)
        st(o, const(r, c, V(0)))
        return None
    raise Unsupported('Eigen method %s' % name)


def qmethod(x, o, name, args, n):
    E = eng.E
    q = ld(o)
    if name in ('w', 'x', 'y', 'z'):
        i = 'wxyz'.index(name)
        if isinstance(o, Loc):
            r = MRef(o, 1, 1, lambda a, b: (i, 0), lambda a, b: (eqt(a, i), 0, 0))
            r.el = True
            return r
        return q.c[i]
    if name == 'vec':
        if isinstance(o, Loc):
            return MRef(o, 3, 1, lambda a, b: (add(a, 1), 0), lambda a, b: (le(1, a), sub(a, 1), 0))
        return mat(3, 1, q.c[1:])
    if name == 'coeffs':
        if isinstance(o, Loc):
            return MRef(o, 4, 1, lambda a, b: ((a + 1) % 4, 0), lambda a, b: (True, (a - 1) % 4, 0))
        return mat(4, 1, list(q.c[1:]) + [q.c[0]])
    if name == 'normalized':
        return norm_guard(q)
    if name == 'normalize':
        st(o, norm_guard(q))
        return None
    if name == 'inverse':
        return inv_guard(q)
    if name == 'conjugate':
        return qconj(q)
    if name in ('toRotationMatrix', 'matrix'):
        return qrotm(q)
    if name == 'setIdentity':
        st(o, Q(F.of(1), F.of(0), F.of(0), F.of(0)))
        return o
    if name == 'norm':
        return qsq(q).sqrt()
    if name == 'squaredNorm':
        return qsq(q)
    if name == 'derived':
        return o
    if name == '_transformVector':
        return qrotv(q, ld(x.ev(args[0])))
    if name == 'setFromTwoVectors':
        a, b = ld(x.ev(args[0])), ld(x.ev(args[1]))
        st(o, from_two(a, b))
        return o
    if name == 'dot':
        p = ld(x.ev(args[0]))
        s = F.of(0)
        for u, v in zip(q.c, p.c):
            s = s + u * v
        return s
    raise Unsupported('quaternion method %s' % name)


def norm_guard(q):
    """Eigen normalized(): divides only when the squared norm is positive"""
    n2 = qsq(q)
    if n2.const() == 1 or fl.p_surely_pos(n2.p):
        return qnormed(q)
    if n2.const() == 0:
        return q
    # zero quaternion stays zero; the non-zero case is normalised
    if eng.E.decide(n2 > F.of(0)):
        n = n2.sqrt()
        return Q(*[clean(c / n) for c in q.c])
    return q


def clean(f):
    """value computed under the path fact that its denominator is not zero"""
    return F(f.p, f.nf) if f.nf is False else F(f.p, lit(z3.simplify(f.nf)) if eng.E.ent(z3.Not(f.nf)) is False else False)


def inv_guard(q):
    n2 = qsq(q)
    if n2.const() == 1:
        return qconj(q)
    if fl.p_surely_pos(n2.p):
        return qinv(q)
    if eng.E.decide(n2 > F.of(0)):
        return Q(*[clean(c) for c in qinv(q).c])
    return Q(*[F.of(0)] * 4)


def from_two(a, b):
    """Quaternion::FromTwoVectors(a, b): unit q with q*a parallel to b (trusted Eigen contract)"""
    E = eng.E
    E.assumptions.add('Eigen FromTwoVectors(a, b): for non-zero finite a and b a unit quaternion q with R(q) a/|a| = b/|b|')
    args = a.lst() + b.lst()
    nf = False
    q = Q(*[fl.fn('from_two_' + n, *args) for n in 'wxyz'])
    fl.declare_unit(q.c)
    E.from_two[(tuple(fl.p_key(t.p) for t in args))] = q
    nz = z3.Or(*[zb(bnot(t.cmpeq(F.of(0)))) for t in a.lst()])
    bad = bnot(band(sqnorm(a) > F.of(0), sqnorm(b) > F.of(0)))
    if bad is not False:
        q = Q(*[F(c.p, fl.zor(c.nf, bad)) for c in q.c])
    from . import spec
    E.opq = E.opq + (spec.Opq('rotates onto', lambda: [q, a, b], None),)
    return q


# ------------------------------------------------------------ operators
def binop(op, a, b):
    a, b = ld(a), ld(b)
    if isinstance(a, RM):
        a = a.v
    if isinstance(b, RM):
        b = b.v
    if isinstance(a, Obj) and a.k == 'Qmat' or isinstance(b, Obj) and getattr(b, 'k', '') == 'Qmat':
        return qr_apply(a, b)
    if op == '*':
        if isinstance(a, Q) and isinstance(b, Q):
            return qmul(a, b)
        if isinstance(a, Q) and isinstance(b, M):
            return qrotv(a, b)
        if isinstance(a, M) and isinstance(b, M):
            return mmul(a, b)
        if isinstance(a, M):
            return mscale(a, b)
        if isinstance(b, M):
            return mscale(b, a)
    if op == '/' and isinstance(a, M):
        return mdiv(a, b)
    if op in '+-' and isinstance(a, M) and isinstance(b, M):
        return madd(a, b, 1 if op == '+' else -1)
    if op in '+-' and isinstance(a, M):          # array +- scalar
        s = F.of(b)
        r = from_fn(a.rows, a.cols, lambda i, j: a.get(i, j) + s if op == '+' else a.get(i, j) - s)
        if getattr(a, 'diag_of', None) is not None:
            r.shifted = (a.diag_of, s if op == '+' else -s)
        return r
    if op in ('<', '>', '<=', '>=') and isinstance(a, M):
        return Obj('arrcmp', a=a, op=op, b=b)
    if op == '==' and isinstance(a, (M, Q)):
        la = a.lst() if isinstance(a, M) else list(a.c)
        lb = b.lst() if isinstance(b, M) else list(b.c)
        return band(*[x.cmpeq(y) for x, y in zip(la, lb)])
    if op == '!=':
        return bnot(binop('==', a, b))
    raise Unsupported('Eigen operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))


def qr_apply(a, b):
    """householderQ().transpose() * M  (dependency contract: Q orthogonal, Q^T A upper triangular)"""
    if isinstance(a, Obj) and a.k == 'Qmat':
        m = b
        t = term_of(m)
        name = ('Q', a.key)
        tq = Term({((name, a.tr),): F.of(1)})
        tt = t_mul(tq, t) if t is not None else None
        if tt is None:
            tm = t_atom(('m', id(m)))
            eng.E.keep.append(m)
            tt = t_mul(tq, tm)
        r = M(m.rows, m.cols, f=t_elem(tt), term=tt)
        eng.E.qrs.append((a, m, r))
        return r
    raise Unsupported('product with householderQ on the right')


# ------------------------------------------------------------ decompositions
def mk_qr(m):
    E = eng.E
    t = term_of(m)
    key = ('qr', t.key()) if t is not None else ('qr', id(m))
    E.keep.append(m)
    return Obj('qr', m=m, key=key)


def to_mat(v):
    raise Unsupported('matrix from %s' % v.k)


def dec_method(x, v, name, args, n):
    E = eng.E
    V = lambda i: ld(x.ev(args[i]))
    if v.k == 'dec' and name == 'solve':
        b = V(0)
        if v.m.dense():
            return solve_spd(v.m, b, v.kind)
        raise Unsupported('solve of a dynamic system')
    if v.k == 'dec' and name == 'compute':
        v.m = V(0)
        return v
    if v.k == 'saes':
        m = v.m
        t = term_of(m)
        key = t.key() if t is not None else id(m)
        E.keep.append(m)
        E.assumptions.add('Eigen SelfAdjointEigenSolver: eigenvectors V (orthogonal) and eigenvalues w with A = V diag(w) V^T')
        if name == 'eigenvectors':
            ORTH.add(('eigvec', key))
            tt = t_atom(('eigvec', key))
            return M(m.rows, m.cols, f=t_elem(tt), term=tt)
        if name == 'eigenvalues':
            tt = t_atom(('eigval', key))
            return M(m.rows, 1, f=t_elem(tt), term=tt)
        if name == 'compute':
            v.m = V(0)
            return v
    if v.k == 'arrcmp' and name == 'select':
        a, b = V(0), V(1)
        c = v.a
        if not c.dense():
            def all_are(side):
                i, j = z3.Int(E.fresh('si')), z3.Int(E.fresh('sj'))
                y = v.b.get(i, j) if isinstance(v.b, M) else F.of(v.b)
                x = c.get(i, j)
                z = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[v.op]
                rng = z3.And(i >= 0, i < zi(c.rows), j >= 0, j < zi(c.cols))
                return z3.ForAll([i, j], z3.Implies(rng, zb(z if side else bnot(z))))
            for side, r in ((True, a), (False, b)):
                if isinstance(r, M) and E.ent(all_are(side)):
                    return r

        def f(i, j):
            x_, y_ = c.get(i, j), (v.b.get(i, j) if isinstance(v.b, M) else F.of(v.b))
            cc = {'<': x_ < y_, '>': x_ > y_, '<=': x_ <= y_, '>=': x_ >= y_}[v.op]
            return eng.E.pick(lit(cc), lambda: F.of(a.get(i, j) if isinstance(a, M) else a), lambda: F.of(b.get(i, j) if isinstance(b, M) else b))
        return from_fn(c.rows, c.cols, f)
    if v.k == 'qr':
        if name == 'householderQ':
            return Obj('Qmat', key=v.key, tr=False, m=v.m)
        if name == 'compute':
            v.m = V(0)
            return v
        if name == 'matrixQR':
            raise Unsupported('matrixQR')
    if v.k == 'Qmat':
        if name in ('transpose', 'adjoint', 'inverse'):
            return Obj('Qmat', key=v.key, tr=not v.tr, m=v.m)
    if v.k == 'svd':
        m = v.m
        key = str(m.rows) + str(m.cols)
        if name in ('matrixV', 'matrixU'):
            if m.dense():
                k = m.cols if name == 'matrixV' else m.rows
                E.assumptions.add('Eigen SVD factors are a deterministic function of the matrix')
                return mat(k, k, [fl.fn('svd_%s_%d_%d_%d' % (name, m.rows, m.cols, i), *m.lst()) for i in range(k * k)])
            t = term_of(m)
            E.keep.append(m)
            k = m.cols if name == 'matrixV' else m.rows
            tt = t_atom((name, t.key() if t is not None else id(m)))
            r = M(k, k, f=t_elem(tt), term=tt)
            E.log += (('svd', name, m, r),)
            return r
    raise Unsupported('%s::%s' % (v.k, name))
