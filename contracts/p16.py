"""P16: camera pose from points."""
from .lib import *
from . import gens


def refused(p, least=1):
    return Or(Not(Eq(p.xs.n, p.zs.n)), p.xs.n < least)


def kept(p, q):
    return And(Same(q.q, p.q), Same(q.p, p.p))


def basic(least=1):
    def post(p, q):
        bad = refused(p, least)
        return [('lists that are empty or do not match are refused', Imp(bad, Not(q.ret))), ('a refusal on the lists leaves the pose alone', Imp(bad, lambda: kept(p, q))),
                ] + ([('lists that match are solved', Imp(Not(bad), q.ret))] if least == 3 else [])
    return post


# ---------------------------------------------------------------- reference (double precision)
def as_lists(p):
    return [p.xs[i].lst() for i in range(p.xs.n)], [p.zs[i].lst() for i in range(p.zs.n)]


def np_rot(q):
    import numpy as np
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def gauss_newton(xs, zs, q, p, its, eps, robust):
    """pose after the iterations, None when the equations cannot be solved"""
    import numpy as np
    from vc.concrete import Ambiguous
    q, p = np.array(q, float), np.array(p, float)
    for _ in range(its):
        H, b = np.zeros((6, 6)), np.zeros(6)
        Rt = np_rot(q).T
        for x, z in zip(xs, zs):
            c = Rt @ (np.array(x) - p)
            if abs(c[2]) < 1e-2:
                raise Ambiguous()
            r = c[:2] / c[2] - z
            D_ = np.array([[1 / c[2], 0, -c[0] / c[2] ** 2], [0, 1 / c[2], -c[1] / c[2] ** 2]])
            S_ = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
            J = D_ @ np.hstack([-Rt, S_])
            n = np.linalg.norm(r)
            if robust and abs(n - 1) < 1e-3:
                raise Ambiguous()
            w = math.log(2) / n if robust and n > 1 else 1.0
            H += w * J.T @ J
            b -= w * J.T @ r
        s = np.linalg.svd(H, compute_uv=False)
        if s[-1] < 1e-4 * s[0] or s[0] == 0:
            raise Ambiguous()
        d = np.linalg.solve(H, b)
        if np.linalg.norm(d) > 3:
            raise Ambiguous()
        p = p + d[:3]
        w, x, y, z = q
        e = [1, d[3] / 2, d[4] / 2, d[5] / 2]
        q = np.array([w * e[0] - x * e[1] - y * e[2] - z * e[3], w * e[1] + x * e[0] + y * e[3] - z * e[2], w * e[2] - x * e[3] + y * e[0] + z * e[1], w * e[3] + x * e[2] - y * e[1] + z * e[0]])
        q = q / np.linalg.norm(q)
        n = np.linalg.norm(d)
        if abs(n - eps) < .2 * eps + 2e-6:
            raise Ambiguous()
        if n < eps:
            break
    return q, p


def close(a, b, tol):
    import numpy as np
    return bool(np.abs(a[0] - b[0]).max() < tol and np.abs(a[1] - b[1]).max() < tol * max(1.0, np.abs(b[1]).max()))


def reference(p, solve):
    """the reference and how far a small change of the input moves it"""
    from vc.concrete import Ambiguous
    xs, zs = as_lists(p)
    a = solve(xs, zs, list(p.q.c), p.p.lst())
    k = [0]

    def jig(v):
        k[0] += 1
        return v * (1 + 1e-6 * (1 if (k[0] * 2654435761 >> 7) & 1 else -1))
    for _ in range(3):
        b = solve([[jig(v) for v in x] for x in xs], [[jig(v) for v in z] for z in zs], [jig(v) for v in p.q.c], [jig(v) for v in p.p.lst()])
        if not close(a, b, 5e-5):
            raise Ambiguous()
    return a


def same_pose(q, ref):
    return close((__import__('numpy').array(q.q.c), __import__('numpy').array(q.p.lst())), ref, 3e-3)


def iterates(robust):
    def post(p, q):
        def check():
            t = p.this
            ref = reference(p, lambda xs, zs, a, b: gauss_newton(xs, zs, a, b, t.maxIterateTimes, t.maxNormDeltaX, robust))
            return And(q.ret, same_pose(q, ref))
        return basic()(p, q)[:2] + [('each iteration solves the Gauss-Newton equations of all points', Imp(Not(refused(p)), check))]
    return post


# ---------------------------------------------------------------- sampling
def libc():
    import ctypes
    return ctypes.CDLL('libc.so.6')


def score_of(xs, zs, q, p, thr):
    import numpy as np
    from vc.concrete import Ambiguous
    Rt, s = np_rot(q).T, []
    for x, z in zip(xs, zs):
        c = Rt @ (np.array(x) - p)
        if abs(c[2]) < 1e-2:
            raise Ambiguous()
        e = float(((c[:2] / c[2] - z) ** 2).sum())
        if abs(e - thr) < .02 * thr + 1e-6:
            raise Ambiguous()
        s.append(e < thr)
    return s


def ransac(p, seed):
    import numpy as np
    from vc.concrete import Ambiguous
    t = p.this

    def solve(xs, zs, a, b):
        L = libc()
        L.srand(seed)
        best, bs, n = (np.array(a, float), np.array(b, float)), 0, len(xs)
        for _ in range(t.ransacParam.maxIterateTimes):
            idx = set()
            while len(idx) < 3:
                idx.add(L.rand() % n)
            idx = sorted(idx)
            c = gauss_newton([xs[i] for i in idx], [zs[i] for i in idx], best[0], best[1], t.maxIterateTimes, t.maxNormDeltaX, False)
            s = sum(score_of(xs, zs, c[0], c[1], t.ransacParam.inlierThres))
            if s > bs:
                best, bs = c, s
            if abs(s / n - t.ransacParam.inlierRateThres) < 1e-6 and s != n and s != 0:
                raise Ambiguous()
            if s / n > t.ransacParam.inlierRateThres + 1e-7:
                break
        return best
    return reference(p, solve)


def sampled(p, q):
    def check():
        return And(q.ret, same_pose(q, ransac(p, p.case['seed'])))
    return basic(3)(p, q)[:2] + [('the best scoring pose evaluated is returned', Imp(Not(refused(p, 3)), check))]


def hit(p, q, i):
    from .p15 import off, apart
    c = qrot(qconj(q.q), sub(p.xs[i], q.p))
    e = off(c, p.zs[i])
    d = dot(e, e)
    t = p.this.ransacParam.inlierThres
    if spec.CONC and (abs(c.get(2, 0)) < 1e-2 or abs(d - t) < 2e-2 * t + 1e-6):
        from vc.concrete import Ambiguous
        raise Ambiguous()
    return d < t


def counted(p, q):
    bad = refused(p, 3)
    return basic(3)(p, q) + [('a refusal leaves the flags alone', Imp(bad, lambda: same_seq(q.flags, p.flags))),
                             ('one flag per point', Imp(Not(bad), lambda: And(q.ret, q.flags.n == p.xs.n)))]


def flagged(p, q):
    return counted(p, q) + [('the flags match the returned pose', Imp(Not(refused(p, 3)), lambda: All(0, p.xs.n, lambda i: Iff(q.flags[i], hit(p, q, i)))))]


def indices(k):
    """the sampled positions exist"""
    p = k.pre
    return [('sampled positions exist', lambda z, v=v: AllKeys([z.now(v)], lambda i: Imp(z.now(v).has(i), And(i >= 0, i < p.xs.n)))) for v in k.locals('set')]


UF = ('arg.q',)
SK = (r'unchanged', r'= start', r'weakened', r'start')
A = ['xs', 'zs', 'q', 'p']
MOD = lambda p: [p.at('q'), p.at('p')]
start_unit = lambda p: [('unit attitude at the start', unit(p.q)), ('the points can be counted', p.xs.n < 1 << 30)]
WHY = 'the iterates are compared with a double precision reference on sampled problems'
CONTRACTS = [
    Contract('PnPSolver::EstimatePose', params=A, requires=start_unit, ensures=basic(), unitloops=True, unitout=('q',), modular=True, unitfam=UF, skip=(r'unchanged', r'only as'), modifies=MOD, gen=gens.pnp),
    Contract('PnPSolver::EstimatePoseKernel', params=A, requires=start_unit, ensures=basic(), unitloops=True, unitout=('q',), modular=True, unitfam=UF, skip=(r'unchanged', r'only as'), modifies=MOD, gen=gens.pnp),
    Contract('PnPSolver::EstimatePoseRANSAC', 4, params=A, requires=start_unit, ensures=basic(3), cutloops=True, invariants=indices, unitloops=True, unitout=('q',), modular=True, unitfam=UF, skip=(r'unchanged', r'only as'), modifies=MOD, gen=gens.pnp_small),
    Contract('PnPSolver::EstimatePoseRANSAC', 5, name='PnPSolver::EstimatePoseRANSAC with flags', params=A + ['flags'], requires=start_unit, ensures=counted, modifies=lambda p: MOD(p) + [p.at('flags')], unitloops=True, unitfam=UF, unitout=('q',), gen=gens.pnp_flags),
    Contract('PnPSolver::EstimatePose', name='PnPSolver::EstimatePose (numeric)', params=A, requires=start_unit, ensures=iterates(False), modifies=MOD, gen=gens.pnp, bounded=WHY),
    Contract('PnPSolver::EstimatePoseKernel', name='PnPSolver::EstimatePoseKernel (numeric)', params=A, requires=start_unit, ensures=iterates(True), modifies=MOD, gen=gens.pnp, bounded=WHY),
    Contract('PnPSolver::EstimatePoseRANSAC', 4, name='PnPSolver::EstimatePoseRANSAC (numeric)', params=A, requires=start_unit, ensures=sampled, modifies=MOD, gen=gens.pnp_small, bounded=WHY),
    Contract('PnPSolver::EstimatePoseRANSAC', 5, name='PnPSolver::EstimatePoseRANSAC with flags (numeric)', params=A + ['flags'], requires=start_unit, ensures=flagged, modifies=lambda p: MOD(p) + [p.at('flags')], gen=gens.pnp_flags, bounded='flags recomputed from the returned pose on sampled problems'),
]
NOTE = 'exact real arithmetic; the linear solver of the library is trusted'
