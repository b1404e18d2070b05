"""Vocabulary of the contracts; every function works on symbolic and on concrete values."""
import math, struct
from fractions import Fraction
from vc import spec, fl, eng
from vc.spec import *
from vc.fl import F
from vc.eng import M, Q, isz, zi
from vc.contract import Contract, Heap, Part


# ---------------------------------------------------------------- scalars
def D(x):
    """the value of a double literal"""
    return float(x) if spec.CONC else F.of(Fraction(x))


def S(x):
    """the value of a single precision literal"""
    v = struct.unpack('f', struct.pack('f', x))[0]
    return v if spec.CONC else F.of(Fraction(v))


def R(x):
    return float(x) if spec.CONC else F.of(x)


def isnan(v):
    if spec.CONC:
        return v != v
    return F.of(v).nf


def absv(v):
    if spec.CONC:
        return abs(v)
    v = F.of(v)
    return eng.ite(v >= 0, v, -v)


def sqrt(v):
    if spec.CONC:
        return math.sqrt(v) if v >= 0 else math.nan
    return F.of(v).sqrt()


def real(v):
    """integer or real as a real"""
    return float(v) if spec.CONC else F.of(v)


# ---------------------------------------------------------------- matrices
def mat(r, c, l):
    if spec.CONC:
        return M(r, c, [float(x) for x in l])
    return M(r, c, [F.of(x) for x in l])


def vec(*l):
    return mat(len(l), 1, l)


def zeros(r, c):
    return fnm(r, c, lambda i, j: R(0))


def eye(n):
    if isinstance(n, int):
        return mat(n, n, [1 if i == j else 0 for i in range(n) for j in range(n)])
    from vc import egn
    return egn.ident(n)


def fnm(r, c, f):
    if isinstance(r, int) and isinstance(c, int):
        return M(r, c, [f(i, j) for i in range(r) for j in range(c)])
    return M(r, c, f=f)


def add(a, b):
    from vc import egn
    return fnm(a.rows, a.cols, lambda i, j: a.get(i, j) + b.get(i, j)) if a.dense() else egn.madd(a, b)


def sub(a, b):
    from vc import egn
    return fnm(a.rows, a.cols, lambda i, j: a.get(i, j) - b.get(i, j)) if a.dense() else egn.madd(a, b, -1)


def scale(a, s):
    from vc import egn
    return fnm(a.rows, a.cols, lambda i, j: a.get(i, j) * s) if a.dense() else egn.mscale(a, s)


def seg(v, k, n=3):
    """entries k .. k+n-1 of a vector"""
    return mat(n, 1, [v.get(eng_add(k, i), 0) for i in range(n)])


def plus_diag(a, s):
    """a + s I"""
    if spec.CONC:
        return fnm(a.rows, a.cols, lambda i, j: a.get(i, j) + (s if i == j else 0.0))
    return add(a, scale(eye(a.rows), s))


def tr(a):
    from vc import egn
    return fnm(a.cols, a.rows, lambda i, j: a.get(j, i)) if a.dense() else egn.mtr(a)


def mul(*ms):
    from vc import egn
    r = ms[0]
    for b in ms[1:]:
        a = r
        if a.dense() and b.dense():
            if spec.CONC:
                import numpy as np
                x = np.array(a.lst(), dtype=float).reshape(a.rows, a.cols) @ np.array(b.lst(), dtype=float).reshape(b.rows, b.cols)
                r = M(a.rows, b.cols, [float(v) for v in x.flatten()])
            else:
                r = egn.mmul(a, b)
        else:
            r = egn.mmul(a, b)
    return r


def blk(a, i, j, r, c):
    """sub-matrix value"""
    if not spec.CONC and not a.dense():
        from vc import egn
        t = egn.term_of(a)
        if t is not None and not (isinstance(r, int) and isinstance(c, int)):
            return M(r, c, f=lambda x, y: a.get(eng_add(i, x), eng_add(j, y)), term=egn.blk_term(t, a, i, j, r, c))
    return fnm(r, c, lambda x, y: a.get(eng_add(i, x), eng_add(j, y)))


def eng_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    from vc.stl import add as ad
    return ad(a, b)


def col(a):
    return a.lst()


def cross(a, b):
    a, b = a.lst(), b.lst()
    return vec(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def skew(v):
    x, y, z = v.lst()
    return mat(3, 3, [R(0), -z, y, z, R(0), -x, -y, x, R(0)])


def dot(a, b):
    s = R(0)
    for x, y in zip(a.lst(), b.lst()):
        s = s + x * y
    return s


def norm(a):
    if not spec.CONC:
        return fl.sumsq([F.of(x) for x in a.lst()]).sqrt()
    return sqrt(dot(a, a))


def arr(m):
    import numpy as np
    return np.array(m.lst(), dtype=float).reshape(m.rows, m.cols)


def of_arr(x):
    return M(x.shape[0], x.shape[1], [float(v) for v in x.flatten()])


# ---------------------------------------------------------------- quaternions (w, x, y, z)
def quat(w, x, y, z):
    return Q(*[float(v) if spec.CONC else F.of(v) for v in (w, x, y, z)])


def qmul(p, q):
    if not spec.CONC:
        from vc import egn
        return egn.qmul(p, q)
    a, b, c, d = p.c
    e, f, g, h = q.c
    return Q(a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e)


def qconj(q):
    w, x, y, z = q.c
    return Q(w, -x, -y, -z)


def qsq(q):
    if not spec.CONC:
        from vc import egn
        return egn.qsq(q)
    w, x, y, z = q.c
    return w * w + x * x + y * y + z * z


def rotm(q):
    """rotation matrix of a unit quaternion (Eigen's formula)"""
    w, x, y, z = q.c
    o = R(1)
    return M(3, 3, [o - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
                    2 * (x * y + w * z), o - 2 * (x * x + z * z), 2 * (y * z - w * x),
                    2 * (x * z - w * y), 2 * (y * z + w * x), o - 2 * (x * x + y * y)])


def qrot(q, v):
    return mul(rotm(q), v)


def qinv(q):
    n = qsq(q)
    return Q(*[c / n for c in qconj(q).c])


def qunit(q):
    n = sqrt(qsq(q))
    return Q(*[c / n for c in q.c])


def smallq(v):
    """small-rotation quaternion of a rotation vector"""
    a = v.lst()
    h = R(2)
    return Q(R(1), a[0] / h, a[1] / h, a[2] / h)


def unit(q):
    """|q| = 1"""
    return Eq(qsq(q), R(1))


# ---------------------------------------------------------------- sequences
def popped(q, p, k=1):
    """q is p without its first k elements"""
    return And(lambda: q.n == p.n - k, lambda: All(0, q.n, lambda i: Same(q[i], p[i + k])))


def same_seq(q, p):
    return And(lambda: q.n == p.n, lambda: All(0, q.n, lambda i: Same(q[i], p[i])))


def null(r):
    return r.null


def nonnull(r):
    return Not(r.null)


# ---------------------------------------------------------------- computed comparisons
def near(a, b, rel=1e-4):
    return spec.CONC and (abs(a - b) <= rel * max(abs(a), abs(b), 1e-3))


def gt(a, b):
    """a > b for values the code computes in single precision; too close to call: no verdict"""
    if near(a, b):
        from vc.concrete import Ambiguous
        raise Ambiguous()
    return a > b


# ---------------------------------------------------------------- raw pointers between the managers
def wire(*links):
    """setup: this.<member> points to a separate object called root"""
    def setup(E, locs):
        from vc.eng import Loc, LVal, PtrV
        from vc.front import Ty
        for path, root, cls in links:
            l = Loc((root,), (), Ty('class', cls))
            locs[root] = l
            t = tuple(path.split('.'))
            E.H[t] = LVal(PtrV(l, False))
            E.reg(t, ('py',), [])
    return setup
