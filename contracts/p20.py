"""P20: rotation and pose helpers."""
from .lib import *

V3 = 'Eigen::Matrix<float, 3, 1>'
QT = 'Eigen::Quaternion<float>'


def skew_post(p, q):
    return [('cross-product matrix times a vector is the vector product', Eq(mul(q.ret, p.u), cross(p.v, p.u)))]


def qvec(q):
    return vec(*q.c)


def left_post(p, q):
    return [('left matrix times r is q*r', Eq(mul(q.ret, qvec(p.r)), qvec(qmul(p.q, p.r))))]


def right_post(p, q):
    return [('right matrix times r is r*q', Eq(mul(q.ret, qvec(p.r)), qvec(qmul(p.r, p.q))))]


def delta_post(p, q):
    a = p.v.lst()
    w, x, y, z = q.ret.c
    return [('scalar part is one', Eq(w, R(1))), ('vector part is half the rotation vector', Eq(vec(x, y, z), scale(p.v, R(1) / 2)))]


def trans_post(p, q):
    T = q.ret
    h = vec(*(p.u.lst() + [R(1)]))
    r = add(qrot(p.q, p.u), p.t).lst()
    return [('maps points by the rotation followed by the translation', Eq(mul(T, h), vec(r[0], r[1], r[2], R(1)))),
            ('last row is (0,0,0,1)', Eq(blk(T, 3, 0, 1, 4), mat(1, 4, [0, 0, 0, 1])))]


def spectral(A):
    from vc import egn
    from vc.eng import M
    k = egn.term_of(A).key()
    egn.ORTH.add(('eigvec', k))
    tv, tw = egn.t_atom(('eigvec', k)), egn.t_atom(('eigval', k))
    return M(A.rows, A.rows, f=egn.t_elem(tv), term=tv), M(A.rows, 1, f=egn.t_elem(tw), term=tw), egn.t_atom(('diag', tw.key()), True)


def inv_pre(p):
    A = p.A
    if spec.CONC:
        import numpy as np
        a = arr(A)
        if a.shape[0] != a.shape[1] or a.shape[0] == 0:
            return [('square', False)]
        w = np.linalg.eigvalsh((a + a.T) / 2)
        return [('symmetric positive definite (well conditioned)', bool(np.allclose(a, a.T) and w.min() > 1e-2 * w.max() and w.min() > 1e-3))]
    V_, w, d = spectral(A)
    return [('square', Eq(A.rows, A.cols)),
            ('positive definite', All(0, A.rows, lambda i: w.get(i, 0) > S(1e-10)))]


def inv_post(p, q):
    A = p.A
    if spec.CONC:
        return [('A times its inverse is the identity', Eq(mul(A, q.ret), eye(A.rows), 1e-2))]
    # trusted contract of the eigen decomposition: A = V diag(w) V^T
    V_, w, d = spectral(A)
    dm = M(A.rows, A.rows, f=None, term=d)
    sp = mul(mul(V_, dm), tr(V_))
    return [('A times its inverse is the identity', Eq(mul(sp, q.ret), eye(A.rows)))]


NO = lambda p: []
CONTRACTS = [
    Contract('Utility::SkewSymmetricMatrix', match='(const Vector3', params=['v'], ghosts=[('u', V3)], ensures=skew_post, modifies=NO),
    Contract('Utility::SkewSymmetricMatrix', match='MatrixBase<Matrix<float, 3, 1, 0, 3, 1>>', params=['v'], ghosts=[('u', V3)], ensures=skew_post, modifies=NO, name='Utility::SkewSymmetricMatrix<Derived>'),
    Contract('Utility::Qleft', match='(const Quaternion', params=['q'], ghosts=[('r', QT)], ensures=left_post, modifies=NO),
    Contract('Utility::Qleft', match='QuaternionBase<Quaternion<float, 0>>', params=['q'], ghosts=[('r', QT)], ensures=left_post, modifies=NO, name='Utility::Qleft<Derived>'),
    Contract('Utility::Qright', match='(const Quaternion', params=['q'], ghosts=[('r', QT)], ensures=right_post, modifies=NO),
    Contract('Utility::Qright', match='QuaternionBase<Quaternion<float, 0>>', params=['q'], ghosts=[('r', QT)], ensures=right_post, modifies=NO, name='Utility::Qright<Derived>'),
    Contract('Utility::DeltaQ', match='MatrixBase<Matrix<float, 3, 1, 0, 3, 1>>', params=['v'], ensures=delta_post, modifies=NO),
    Contract('Utility::TransformMatrix', params=['q', 't'], ghosts=[('u', V3)], ensures=trans_post, modifies=NO),
    Contract('Utility::Inverse', params=['A'], requires=inv_pre, ensures=inv_post, modifies=NO),
]
