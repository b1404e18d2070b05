"""P21: the features of a vision update, and the update as a whole."""
from .lib import *
from . import gens
from .p05 import wf_window
from .p06 import key_rule, ENUM, wf_frames
from .p11 import IMU
from .p15 import Views, fits, unsolvable, in_front, wf_views, SOLVED, UNSOLVED, L
from .p13 import np_rows, eliminated, np_of
from .p08 import motion_post

W = wire(('this.propagator', 'pq', 'PropagateQueue'), ('this.frameManager', 'fm', 'FrameManager'), ('this.featureManager', 'fe', 'FeatureManager'), ('this.trianglator', 'tg', 'Trianglator'))
GR = dict(gravity='IMUFullState::gravity_w')


def ok(f):
    return spec.holds(f, '')[0]


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


# ---------------------------------------------------------------- choice of the features
def judged(fm, fr, g):
    """every feature of the newest frame tells whether all its views allow a point (g: features afterwards)"""
    v0 = NS(fm=fm)
    for k in sorted(fr.features.d):
        f0, f1 = fr.features[k], g[k]
        v = Views(v0, f0)
        good = f1.status == SOLVED
        if not good and f1.status != UNSOLVED:
            return False
        if v.qs.n < 2:
            if good:
                return False
        elif good and not (in_front(v, NS(x=f1.p_w)) and fits(v, f1.p_w)):
            return False
        elif not good and not unsolvable(v):
            return False
    return True


def chosen(p, q, fr, g):
    """the list of used features"""
    l = q.this.features
    good = [k for k in fr.features.d if g[k].status == SOLVED]
    refs = [l[i].ref for i in range(l.n)]
    return And(len(set(refs)) == len(refs), all(any(fr.features[k].ref == r for k in good) for r in refs), len(refs) == min(len(good), p.this.maxUsedFeatures))


def newest(m):
    return m.frames[m.frames.n - 1]


def select_post(p, q):
    fr = newest(p.fm)
    g = newest(q.fm).features
    return [('always succeeds', q.ret), ('every feature of the newest frame is triangulated from all its views', lambda: judged(p.fm, fr, g)),
            ('distinct solved features of the newest frame, all of them up to the allowed number', lambda: chosen(p, q, fr, g))]


def select_pre(p):
    f, e = p.fm.frames, p.fm.extrinsics
    return [('there is a frame', f.n >= 1), ('window numbered consecutively', wf_window(f)), ('unit attitudes', And(All(0, e.n, lambda i: unit(e[i].q_bc)), All(0, f.n, lambda i: unit(f[i].q_wb)))),
            ('features seen by the newest frame have their views in the window', lambda: And(*[wf_views(p, newest(p.fm).features[k]) for k in newest(p.fm).features.d]))]


# ---------------------------------------------------------------- the whole update
def dropped(p):
    x = p.pq.items
    k = 0
    while k < x.n and p.t - x[k].timeStamp > p.threshold:
        if abs(p.t - x[k].timeStamp - p.threshold) < 1e-9:
            from vc.concrete import Ambiguous
            raise Ambiguous()
        k += 1
    return k


def at_update(p, s):
    """window with the newest frame at the pose of the update time"""
    fr = p.fm.frames
    fs = L(fr[i] for i in range(fr.n))
    a = fr[fr.n - 1]
    fs[-1] = NS(id=a.id, q_wb=s.q_wb, p_wb=s.p_wb, v_wb=s.v_wb, features=a.features, timeStamp=a.timeStamp)
    return NS(frames=fs, extrinsics=p.fm.extrinsics)


def full_cov(p, x):
    import numpy as np
    A, B, C = np_of(x.imuCov), np_of(x.imuExCamCov), np_of(p.pq.exCamCov)
    return np.block([[A, B], [B.T, C]])


def kalman(P, G, n, s):
    """state correction and covariance from the information G on state and residual"""
    import numpy as np
    A, b = G[:n, :n], G[:n, n]
    w, v = np.linalg.eigh(A)
    w = np.maximum(w, 0)
    H = np.sqrt(w)[:, None] * v.T
    r = np.where(w > 1e-12 * max(w.max(), 1e-30), (v.T @ b) / np.sqrt(np.maximum(w, 1e-300)), 0)
    S_ = H @ P @ H.T + s * s * np.eye(n)
    K = P @ H.T @ np.linalg.inv(S_)
    return K @ r, P - K @ H @ P


def correction(p, fm, feats, P, s):
    """Kalman correction, no verdict where rounding decides"""
    import numpy as np
    from vc.concrete import Ambiguous
    v = NS(fm=fm)
    n = P.shape[0]

    def run(rng):
        G = 0
        for f in feats:
            g, sv = eliminated(*np_rows(v, f, rng))
            if len(sv) < 3 or sv[2] < 1e-3 * sv[0]:
                raise Ambiguous()
            G = G + g
        Q_ = P if rng is None else P * (1 + 3e-7 * rng.standard_normal(P.shape))
        return kalman((Q_ + Q_.T) / 2, G, n, s)
    d, N = run(None)
    rng = np.random.default_rng(5)
    for _ in range(5):
        e, M_ = run(rng)
        if not (close(e, d, 4e-4) and close(M_, N, 4e-4)):
            raise Ambiguous()
    if np.abs(d).max() > 20:
        raise Ambiguous()
    return d, N


def close(a, b, tol):
    import numpy as np
    return bool((np.abs(a - b) <= tol * max(1.0, np.abs(b).max())).all())


def reduced(P, pol, e, nf):
    """augmented by the newest frame, then without the frame the policy drops"""
    import numpy as np
    i = [0, 1, 2, 6, 7, 8]
    P = np.block([[P, P[:, i]], [P[i, :], P[np.ix_(i, i)]]])
    n = P.shape[0]
    first = IMU + 6 * e
    k = dict(MARG_OLDEST=first, MARG_SUBNEW=n - 12, MARG_NEWEST=n - 6).get(pol)
    if k is None:
        return P
    keep = [j for j in range(n) if not k <= j < k + 6]
    return P[np.ix_(keep, keep)]


def turned(q0, th):
    return qunit(qmul(q0, smallq(vec(*th))))


def vnear(a, b, tol=3e-3):
    return all(abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(a, b))


def qnear(a, b, tol=3e-3):
    s = 1 if sum(x * y for x, y in zip(a.c, b.c)) > 0 else -1
    return all(abs(x - s * y) <= tol for x, y in zip(a.c, b.c))


def update_post(p, q):
    x, y, k = p.pq.items, q.pq.items, dropped(p)
    fr, gr, e = p.fm.frames, q.fm.frames, p.fm.extrinsics
    c = 6 * (e.n + fr.n - 1)
    runs = k < x.n and x[k].imuExCamCov.cols == c
    full = p.fm.frames.n > p.fm.maxWindowSize

    def done():
        s = x[k].nominalState
        fm = at_update(p, s)
        g = gr[fr.n - 1].features
        pol = 'NO_MARG' if not full else ('MARG_OLDEST' if ok(key_rule(p.fm, fr[fr.n - 2])) else 'MARG_SUBNEW')
        if not (q.this.margPolicy == ENUM[pol] and judged(fm, fm.frames[-1], g) and ok(chosen(p, q, fm.frames[-1], g))):
            return False
        if not ok(And(Eq(y.n, x.n - k), lambda: All(0, y.n, lambda i: Same(y[i], x[i + k])))):
            return False
        P = full_cov(p, x[k])
        l = q.this.features
        out = []
        if l.n == 0:
            import numpy as np
            N = P
            same = lambda a, b: And(Same(a.q_wb, b.q_wb), Same(a.p_wb, b.p_wb))
            out = [Same(q.pq.bias_a, p.pq.bias_a), Same(q.pq.bias_g, p.pq.bias_g), same(y[0].nominalState, s), Same(y[0].nominalState.v_wb, s.v_wb),
                   All(0, fr.n - 1, lambda i: same(gr[i], fr[i])), All(0, e.n, lambda i: And(Same(q.fm.extrinsics[i].q_bc, e[i].q_bc), Same(q.fm.extrinsics[i].p_bc, e[i].p_bc)))]
        else:
            feats = [l[i] for i in range(l.n)]
            d, N = correction(p, fm, feats, P, float(p.this.measureNoise))
            N = (N + N.T) / 2
            n1 = y[0].nominalState
            lst = lambda v: [float(a) for a in v.lst()]
            plus = lambda v, i: [a + b for a, b in zip(lst(v), d[i:i + 3])]
            out = [vnear(lst(n1.p_wb), plus(s.p_wb, 0)), vnear(lst(n1.v_wb), plus(s.v_wb, 3)), qnear(n1.q_wb, turned(s.q_wb, d[6:9])),
                   vnear(lst(q.pq.bias_a), plus(p.pq.bias_a, 9)), vnear(lst(q.pq.bias_g), plus(p.pq.bias_g, 12))]
            for i in range(e.n):
                a, o = q.fm.extrinsics[i], IMU + 6 * i
                out += [vnear(lst(a.p_bc), plus(e[i].p_bc, o)), qnear(a.q_bc, turned(e[i].q_bc, d[o + 3:o + 6]))]
            for i in range(fr.n - 1):
                a, o = gr[i], IMU + 6 * e.n + 6 * i
                out += [vnear(lst(a.p_wb), plus(fr[i].p_wb, o)), qnear(a.q_wb, turned(fr[i].q_wb, d[o + 3:o + 6]))]
        if not all(f if isinstance(f, bool) else ok(f) for f in out):
            return False
        a, s1 = gr[fr.n - 1], y[0].nominalState
        if not ok(And(Eq(a.p_wb, s1.p_wb), Eq(a.v_wb, s1.v_wb), Eq(a.q_wb, s1.q_wb))):
            return False
        Z = reduced(N, pol, e.n, fr.n)
        got = full_cov(q, y[0])
        return got.shape == Z.shape and close(got, Z, 3e-3)

    def later():
        w = IMU + c + 6 - (6 if full else 0) - IMU
        b = q.pq
        return And(b.exCamCov.rows == w, b.exCamCov.cols == w, lambda: All(0, y.n, lambda i: And(y[i].imuExCamCov.rows == IMU, y[i].imuExCamCov.cols == w)),
                   lambda: All(1, y.n, lambda i: And(*[f for _, f in motion_post(y[i - 1].nominalState, y[i - 1], y[i], y[i].nominalState, b.bias_a, b.bias_g, p.gravity)])))

    def refused():
        return And(All(0, fr.n, lambda i: And(Same(gr[i].q_wb, fr[i].q_wb), Same(gr[i].p_wb, fr[i].p_wb))), Same(q.pq.bias_a, p.pq.bias_a))
    return [('succeeds exactly when an entry of the time remains whose covariance fits the window', Iff(q.ret, runs)),
            ('the steps run on the state at the frame time and change nothing but what the used features tell', Imp(And(q.ret, runs), done)),
            ('every later entry is propagated again with covariances of the new window', Imp(And(q.ret, runs), later)), ('a refusal leaves poses and biases alone', Imp(Not(runs), refused))]


def update_pre(p):
    x = p.pq.items
    return select_pre(p) + [('unit attitudes of the entries', All(0, x.n, lambda i: unit(x[i].nominalState.q_wb))), ('window size configured', p.fm.maxWindowSize >= 1), ('features are well formed', wf_frames(p.fm.frames)),
                            ('camera and frame covariance is square', p.pq.exCamCov.rows == p.pq.exCamCov.cols)]


WHY = 'judged against numpy in double precision on sampled windows'
CONTRACTS = [
    Contract('MultiViewVisionUpdate::SelectGoodFeatures', name='MultiViewVisionUpdate::SelectGoodFeatures (numeric)', params=[], bounded=WHY, setup=W, requires=select_pre, ensures=select_post, gen=gens.select),
    Contract('MultiViewVisionUpdate::Update', name='MultiViewVisionUpdate::Update (numeric)', params=['t', 'threshold'], globals=GR, bounded=WHY, setup=W, requires=update_pre, ensures=update_post, gen=gens.update),
]
NOTE = 'bounded check: sampled windows'
LEVEL = 'exploration'
