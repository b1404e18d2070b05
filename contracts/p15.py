"""P15: triangulation uses the right cameras and accepts only points in front of them."""
from .lib import *
from .p05 import wf_window
import z3
from . import gens

W = wire(('this.propagator', 'pq', 'PropagateQueue'), ('this.frameManager', 'fm', 'FrameManager'), ('this.trianglator', 'tg', 'Trianglator'))
UNSOLVED, SOLVED = 1, 2


# ---------------------------------------------------------------- one view
def seen(q, t, x):
    """point x in the camera frame of the pose (q, t) from world to camera"""
    return add(qrot(q, x), t)


def off(c, z):
    """reprojection error of the camera point c"""
    a = c.lst()
    return sub(vec(a[0] / a[2], a[1] / a[2]), z)


def apart(v):
    """not zero (values computed in single precision)"""
    if spec.CONC:
        return abs(v) > 1e-3
    return Not(Eq(v, R(0)))


def residual_post(p, q):
    c = seen(p.q, p.p, p.x)
    return [('squared distance between the projected and the measured point', Imp(apart(c.get(2, 0)), lambda: Eq(q.ret, dot(off(c, p.z), off(c, p.z)), 1e-3)))]


def inv_depth(p):
    """h and its derivative W with respect to (alpha, beta, rho)"""
    a, b, rho = p.x.lst()
    Rm = rotm(p.q)
    h = add(mul(Rm, vec(a, b, R(1))), scale(p.t, rho))
    t = p.t.lst()
    return h, mat(3, 3, [Rm.get(i, j) if j < 2 else t[i] for i in range(3) for j in range(3)])


def jacobian_post(p, q):
    h, Wm = inv_depth(p)
    h1, h2, h3 = h.lst()
    J = lambda: mat(2, 3, [Wm.get(i, j) / h3 - (h1, h2)[i] / (h3 * h3) * Wm.get(2, j) for i in range(2) for j in range(3)])
    ok = apart(h3)
    r = lambda: sub(vec(h1 / h3, h2 / h3), p.z)
    e = lambda: norm(r())
    return [('residual is projected minus measured', Imp(ok, lambda: Eq(q.r, r(), 1e-3))),
            ('exact derivative of the projection by inverse depth coordinates', Imp(ok, lambda: Eq(q.J, J(), 1e-3))),
            ('full weight below the threshold, square root of 2 eps / e above', Imp(ok, lambda: Cond(gt(e(), S(0.01)), lambda: Eq(q.w, sqrt(R(2) * S(0.01) / e()), 1e-3), lambda: Eq(q.w, R(1)))))]


# ---------------------------------------------------------------- the linear method
def front(q, p, x):
    """depth of world point x in the camera with world pose (q, p)"""
    return qrot(qconj(q), sub(x, p)).get(2, 0)


def rows_of(q, p, z):
    """the two equations of a view, as a 2 x 4 matrix"""
    Rt = tr(rotm(q))
    t = scale(mul(Rt, p), R(-1))
    row = lambda i: [Rt.get(i, j) for j in range(3)] + [t.get(i, 0)]
    return [[z.get(i, 0) * b - a for a, b in zip(row(i), row(2))] for i in range(2)]


def linear(p):
    n = p.qs.n
    out = []
    for i in range(n):
        out += rows_of(p.qs[i], p.ps[i], p.zs[i])
    return out


def null_vector(p):
    """(unit vector of the smallest singular value, singular values) of the stacked equations"""
    import numpy as np
    from vc.concrete import Ambiguous
    A = np.array(linear(p), dtype=float)
    u, s, vt = np.linalg.svd(A)
    s = np.concatenate([s, np.zeros(4 - len(s))])
    return A, s, vt[3]


def fits(p, x):
    """x solves the linear system in the least squares sense, up to single precision"""
    import numpy as np
    A, s, v = null_vector(p)
    h = np.array(list(x.lst()) + [1.0])
    h = h / np.linalg.norm(h)
    return bool(np.isfinite(h).all() and np.linalg.norm(A @ h) <= s[3] + 2e-4 * s[0])


def unsolvable(p):
    """a point at infinity or behind a camera (a refusal is justified)"""
    import numpy as np
    from vc.concrete import Ambiguous
    A, s, v = null_vector(p)
    if s[2] - s[3] < 1e-3 * s[0]:
        raise Ambiguous()
    if abs(v[3]) < 1e-3:
        return True
    x = M(3, 1, [float(c / v[3]) for c in v[:3]])
    d = min(front(p.qs[i], p.ps[i], x) for i in range(p.qs.n))
    if abs(d) < 1e-2 * max(1.0, max(abs(c) for c in x.lst())):
        raise Ambiguous()
    return d < 0


def front_all(qs, ps, x):
    return AllOpq(0, qs.n, 'in front of the camera', lambda i: [qs[i], ps[i], x], lambda a, b, c: front(a, b, c) >= 0)


def in_front(p, q):
    if spec.CONC:
        return all(front(p.qs[i], p.ps[i], q.x) > -1e-3 * max(1.0, norm(q.x)) for i in range(p.qs.n))
    return front_all(p.qs, p.ps, q.x)


def analytic_post(p, q):
    n = p.qs.n
    return [('fewer than two views are refused', Imp(n < 2, Not(q.ret))), ('an accepted point is not behind any camera', Imp(q.ret, in_front(p, q) if not spec.CONC else lambda: in_front(p, q)))] + \
        ([] if spec.CONC else [('the point is the null direction of the equations of all views, accepted unless at infinity or behind a camera', Imp(n >= 2, lambda: null_of_rows(p, q)))])


def null_of_rows(p, q):
    """the decision and the point, in terms of the last right singular vector of the stacked equations"""
    ev = [e for e in eng.E.log if e[0] == 'svd' and e[1] == 'matrixV']
    if len(ev) != 1:
        raise eng.Unsupported('no singular value decomposition on the path')
    A, Vm = ev[0][2:]
    n = p.qs.n
    v = [Vm.get(i, 3) for i in range(4)]
    x = vec(*[c / v[3] for c in v[:3]])

    def rows(i):
        return And(*[Eq(A.get(2 * i + k, j), c) for k, r in enumerate(rows_of(p.qs[i], p.ps[i], p.zs[i])) for j, c in enumerate(r)])
    return And(A.rows == 2 * n, A.cols == 4, lambda: All(0, n, rows),
               lambda: Iff(q.ret, And(Not(absv(v[3]) < D(1e-6)), lambda: All(0, n, lambda i: front(p.qs[i], p.ps[i], x) >= 0))), Imp(q.ret, lambda: Eq(q.x, x)))


def analytic_inv(k):
    p = k.pre
    n = p.qs.n
    A = lambda z: z.cur.this.analyticTemp.A
    row = lambda z, i: And(*[Eq(A(z).get(2 * i + a, j), c) for a, r in enumerate(rows_of(p.qs[i], p.ps[i], p.zs[i])) for j, c in enumerate(r)])
    if any('analyticTemp' in h[0] for h in k.L.havoc):
        return [('views so far fill their rows', lambda z: All(0, n, lambda i: Imp(i < z.n, lambda: row(z, i)))), ('not beyond the list', lambda z: z.n <= n)]
    return [('views so far have the point in front', lambda z: All(0, z.n, lambda i: front(p.qs[i], p.ps[i], z.cur.x) >= 0)), ('not beyond the list', lambda z: z.n <= n)]


def solved_post(p, q):
    """what the bounded check adds: the accepted point solves the stacked equations, refusals are justified"""
    n = p.qs.n
    return [('the accepted point solves the equations of all views', Imp(q.ret, lambda: fits(p, q.x))), ('a refusal is justified', Imp(And(Not(q.ret), n >= 2), lambda: unsolvable(p)))]


def listed(p):
    return [('one position and one measurement per attitude', And(Eq(p.ps.n, p.qs.n), Eq(p.zs.n, p.qs.n))), ('unit attitudes', All(0, p.qs.n, lambda i: unit(p.qs[i]))), ('the views can be counted', p.qs.n < 1 << 30)]


# ---------------------------------------------------------------- the iterative method
def total(p, x):
    return sum(dot(o, o) for o in [off(qrot(qconj(p.qs[i]), sub(x, p.ps[i])), p.zs[i]) for i in range(p.qs.n)])


def not_worse(p, q):
    from vc.concrete import Ambiguous
    a = total(p, p.x)
    if not math.isfinite(a) or any(abs(front(p.qs[i], p.ps[i], p.x)) < 1e-2 for i in range(p.qs.n)) or abs(p.x.get(2, 0)) < 1e-2:
        raise Ambiguous()
    return total(p, q.x) <= a * (1 + 1e-3) + 1e-6


def refine_post(p, q):
    return [('the total reprojection error does not grow', Imp(q.ret, lambda: not_worse(p, q)))]


# ---------------------------------------------------------------- a feature
def camera(p, fr, c):
    """world pose of a camera: body pose composed with the mounting"""
    e = p.fm.extrinsics[c]
    return qmul(fr.q_wb, e.q_bc), add(qrot(fr.q_wb, e.p_bc), fr.p_wb)


class Views:
    """all observations of a feature as lists, for the judges above"""

    def __init__(self, p, f):
        self.qs, self.ps, self.zs = L(), L(), L()
        fr = p.fm.frames
        for i in range(f.observes.n):
            a = fr[f.firstFrameID + i - fr[0].id]
            o = f.observes[i].norms
            for c in sorted(o.d):
                qq, pp = camera(p, a, c)
                self.qs.append(qq)
                self.ps.append(pp)
                self.zs.append(o[c])


class L(list):
    n = property(len)


# ghost numbering of the stored observations of the feature: the observations of its frame slots one after the other
PS = z3.Function('observations before slot', z3.IntSort(), z3.IntSort())
SLOT = z3.Function('slot of observation', z3.IntSort(), z3.IntSort())
CAM = z3.Function('camera of observation', z3.IntSort(), z3.IntSort())
lit = spec.lit


def numbered(p, f):
    """defines the numbering"""
    n = f.observes.n
    m = lambda i: f.observes[i].norms

    def place(i):
        e = m(i).enum()
        return All(0, m(i).n, lambda r: lit(z3.And(SLOT(PS(zi(i)) + zi(r)) == zi(i), CAM(PS(zi(i)) + zi(r)) == e.en(zi(r)))))
    return [('none before the first slot', lit(PS(z3.IntVal(0)) == 0)), ('slot sizes add up', All(0, n, lambda i: lit(PS(zi(i) + 1) == PS(zi(i)) + zi(m(i).n)))),
            ('numbers grow', All(0, n, lambda i: And(lit(PS(zi(i)) >= 0), lit(PS(zi(i) + 1) <= PS(zi(n)))))), ('in order of slot and enumeration', All(0, n, place))]


KINDS = ('view attitude', 'view position', 'view measurement')


def entry_is_view(p, f, w, l):
    """reads of entry j of a list and of the observation with that number"""
    def reads(j):
        i, c = SLOT(zi(j)), CAM(zi(j))
        fr = p.fm.frames
        a, e = fr[f.firstFrameID + i - fr[0].id], p.fm.extrinsics[c]
        return ([l[j], a.q_wb, e.q_bc], [l[j], a.q_wb, a.p_wb, e.p_bc], [l[j], f.observes[i].norms[c]])[w]
    return reads


VIEW = (lambda x, a, e: Eq(x, qmul(a, e)), lambda x, a, b, e: Eq(x, add(qrot(a, e), b)), lambda x, z: Eq(x, z))


def all_views(p, f, w, l, hi=None):
    return AllOpq(0, l.n if hi is None else hi, KINDS[w], entry_is_view(p, f, w, l), VIEW[w])


def view_no(p, f, j):
    """pose and measurement of observation number j"""
    i, c = SLOT(zi(j)), CAM(zi(j))
    fr = p.fm.frames
    qq, pp = camera(p, fr[f.firstFrameID + i - fr[0].id], c)
    return qq, pp, f.observes[i].norms[c]


def total_views(f):
    return PS(zi(f.observes.n))


def wf_views(p, f):
    """the observations of a feature belong to frames of the window and to known cameras"""
    fr, e = p.fm.frames, p.fm.extrinsics
    return And(f.observes.n >= 1, lambda: fr.n >= 1, lambda: f.firstFrameID >= fr[0].id, lambda: f.firstFrameID + f.observes.n <= fr[0].id + fr.n,
               lambda: All(0, f.observes.n, lambda i: And(nonnull(f.observes[i]), lambda: AllKeys(f.observes[i].norms, lambda c: Imp(f.observes[i].norms.has(c), lambda: c < e.n)))))


def multi_pre(p):
    fr, e = p.fm.frames, p.fm.extrinsics
    return [('window numbered consecutively', wf_window(fr)), ('unit attitudes', And(All(0, e.n, lambda i: unit(e[i].q_bc)), All(0, fr.n, lambda i: unit(fr[i].q_wb)))), ('at most a thousand cameras and frames', And(e.n <= 1000, fr.n <= 1000)),
            ('observations belong to the window', Imp(Not(p.f.null), lambda: wf_views(p, p.f))), ('the observations can be counted', True if spec.CONC else lit(PS(zi(p.f.observes.n)) < 1 << 30))]


def lists_of(k):
    """the lists that collect the views: attitudes, positions, measurements"""
    out = {}
    for v in k.locals('vector'):
        out.setdefault(repr(v.ty.a[0]), []).append(v)
    return out


def multi_inv(k):
    p = k.pre
    f = p.f
    kinds = {'quat': 0, (3, 1): 1, (2, 1): 2}
    out = []
    for v in k.locals('vector'):
        t = eng.kind_of(v.ty.a[0]) if v.ty.a else None
        if t is None or t[0] not in ('quat', 'mat', 'smat'):
            continue
        w = 0 if t[0] == 'quat' else 1 if tuple(t[1:3]) == (3, 1) else 2
        done = (lambda z, v=v: PS(zi(z.n))) if k.depth == 1 else (lambda z, v=v, m=k.then(v).n: zi(m) + zi(z.n))
        out.append(('one entry per observation so far: %d' % w, lambda z, v=v, done=done: lit(zi(z.now(v).n) == done(z))))
        if w == 0:
            out.append(('unit attitudes', lambda z, v=v: All(0, z.now(v).n, lambda j: unit(z.now(v)[j]))))
        out.append(('entries are the views so far: %d' % w, lambda z, v=v, w=w: all_views(p, f, w, z.now(v))))
    return out


def multi_post(p, q):
    """the views handed to the triangulation"""
    def given():
        ev = [e for e in eng.E.log if e[0] == 'call' and e[1].endswith('TrianglateAnalytic')]
        if len(ev) != 1:
            raise eng.Unsupported('no triangulation on the path')
        a, b = ev[0][2:]
        f = p.f
        return And(lit(zi(a.qs.n) == total_views(f)), Eq(a.ps.n, a.qs.n), Eq(a.zs.n, a.qs.n), *[all_views(p, f, w, (a.qs, a.ps, a.zs)[w]) for w in range(3)],
                   Iff(q.ret, b.ret), lambda: Eq(q.f.p_w, b.x), Imp(q.ret, lambda: front_all(a.qs, a.ps, q.f.p_w)))
    return [('no feature, no point', Imp(p.f.null, Not(q.ret))),
            ('status tells the result', Imp(Not(p.f.null), lambda: Cond(q.ret, lambda: Eq(q.f.status, SOLVED), lambda: Eq(q.f.status, UNSOLVED)))),
            ('the triangulation gets every observation exactly once with the pose of its camera, and accepts only points in front of all of them', Imp(Not(p.f.null), given))]


def feature_post(p, q):
    def given():
        a, b = p.f, q.f
        v = Views(p, a)
        class Q_:
            x = b.p_w
        return And(Eq(b.status, SOLVED if q.ret else UNSOLVED), Imp(v.qs.n < 2, Not(q.ret)), Imp(q.ret, lambda: in_front(v, Q_)), Imp(q.ret, lambda: fits(v, b.p_w)), Imp(And(Not(q.ret), v.qs.n >= 2), lambda: unsolvable(v)))
    return [('no feature, no point', Imp(p.f.null, Not(q.ret))), ('every observation is used with the pose of its camera, and the status tells the result', Imp(Not(p.f.null), given))]


CONTRACTS = [
    Contract('Trianglator::ComputeResidual', params=['q', 'p', 'x', 'z'], ensures=residual_post, gen=gens.residual, units=lambda p: [p.q], modifies=lambda p: []),
    Contract('Trianglator::CumputeJacobian', params=['q', 't', 'x', 'z', 'J', 'r', 'w'], ensures=jacobian_post, gen=gens.jacobian, units=lambda p: [p.q], modifies=lambda p: [p.at('J'), p.at('r'), p.at('w')]),
    Contract('Trianglator::TrianglateAnalytic', params=['qs', 'ps', 'zs', 'x'], requires=listed, ensures=analytic_post, invariants=analytic_inv, modular=True, gen=gens.triangulate, unitfam=('arg.qs.[]',), modifies=lambda p: [p.at('x'), p.this.at('analyticTemp')]),
    Contract('Trianglator::TrianglateAnalytic', name='Trianglator::TrianglateAnalytic (numeric)', params=['qs', 'ps', 'zs', 'x'], bounded='the least squares solution itself is judged by numpy on sampled scenes', requires=listed, ensures=solved_post, gen=gens.triangulate, modifies=lambda p: [p.at('x'), p.this.at('analyticTemp')]),
    Contract('Trianglator::TrianglateIterative', params=['qs', 'ps', 'zs', 'x'], bounded='local descent checked on sampled scenes', ensures=refine_post, gen=gens.refine, modifies=lambda p: [p.at('x')]),
    Contract('MultiViewVisionUpdate::TrianglizeMultiFrame', params=['f'], concrete=False, skip=(r'hi <=', r'\.\[\] unch', r'\.\[\] changes', r'start-'), requires=multi_pre, ensures=multi_post, invariants=multi_inv, ghostfacts=lambda p: numbered(p, p.f), setup=W,
             unitfam=('fm.extrinsics.[].q_bc', 'Frame.q_wb'), modifies=lambda p: [p.tg.at('analyticTemp'), Heap('Feature', 'p_w', lambda r: Eq(r, p.f.ref)), Heap('Feature', 'status', lambda r: Eq(r, p.f.ref))]),
    Contract('MultiViewVisionUpdate::TrianglizeMultiFrame', name='MultiViewVisionUpdate::TrianglizeMultiFrame (numeric)', params=['f'], bounded='the least squares solution itself is judged by numpy on sampled scenes', ensures=feature_post, gen=gens.tri_feature, setup=W),
]
NOTE = 'exact real arithmetic; singular vectors of the library are trusted'
