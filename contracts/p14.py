"""P14: the filter update applies the Kalman gain and injects the correction."""
from .lib import *
from .p11 import IMU, W, pre_state, sizes, square
from .p05 import wf_window
from .p20 import spectral
from . import gens

P_, V_, TH, BA, BG = 0, 3, 6, 9, 12


def system(p):
    A = p.this.Hx_r
    m, n = A.rows, A.cols - 1
    return blk(A, 0, 0, m, n), blk(A, 0, n, m, 1)


def innovation(p):
    H, r = system(p)
    s = p.this.measureNoise
    return plus_diag(mul(H, mul(p.this.covariance, tr(H))), s * s)


def decomposed(A):
    """A written with its eigen decomposition (trusted contract of the library: A = V diag(w) V^T)"""
    if spec.CONC:
        return A
    v, w, d = spectral(A)
    return mul(mul(v, M(A.rows, A.rows, f=None, term=d)), tr(v))


def positive(A):
    if spec.CONC:
        import numpy as np
        w = np.linalg.eigvalsh(arr(A))
        return bool(w.min() > 1e-4 * w.max() and w.min() > 1e-6)
    v, w, d = spectral(A)
    return All(0, A.rows, lambda i: w.get(i, 0) > S(1e-10))


def turned(q0, th):
    return qunit(qmul(q0, smallq(th)))


def updated(p, q):
    H, r = system(p)
    P = p.this.covariance
    K, d = q.this.K, q.this.delta_x
    N = sub(P, mul(mul(K, H), P))
    x0, x1 = p.pq.items[0].nominalState, q.pq.items[0].nominalState
    e0, e1, f0, f1 = p.fm.extrinsics, q.fm.extrinsics, p.fm.frames, q.fm.frames
    nf = f0.n
    off = IMU + 6 * e0.n

    def cam(i):
        k = IMU + 6 * i
        return And(Eq(e1[i].p_bc, add(e0[i].p_bc, seg(d, k))), Eq(e1[i].q_bc, turned(e0[i].q_bc, seg(d, k + 3))))

    def fr(i):
        k = off + 6 * i
        return And(Eq(f1[i].p_wb, add(f0[i].p_wb, seg(d, k))), Eq(f1[i].q_wb, turned(f0[i].q_wb, seg(d, k + 3))), Eq(f1[i].v_wb, f0[i].v_wb))

    def last():
        a = f1[nf - 1]
        return And(Eq(a.p_wb, x1.p_wb), Eq(a.v_wb, x1.v_wb), Eq(a.q_wb, x1.q_wb))
    Sg = innovation(p)
    return [('always succeeds', q.ret), ('innovation covariance is H P H^T + s^2 I', Eq(q.this.meas_covariance, Sg, 1e-3)),
            ('the gain is P H^T (H P H^T + s^2 I)^-1', Eq(mul(K, decomposed(Sg)), mul(P, tr(H)), 3e-3)),
            ('the correction is gain times residual', Eq(d, mul(K, r), 1e-3)), ('one correction per state', And(d.rows == P.rows, d.cols == 1)),
            ('covariance becomes (I - K H) P, symmetrised', Eq(q.this.covariance, scale(add(N, tr(N)), R(1) / 2), 3e-3)),
            ('position, velocity and attitude of the IMU', lambda: And(Eq(x1.p_wb, add(x0.p_wb, seg(d, P_))), Eq(x1.v_wb, add(x0.v_wb, seg(d, V_))), Eq(x1.q_wb, turned(x0.q_wb, seg(d, TH))))),
            ('both biases', lambda: And(Eq(q.pq.bias_a, add(p.pq.bias_a, seg(d, BA))), Eq(q.pq.bias_g, add(p.pq.bias_g, seg(d, BG))))),
            ('every camera mounting', lambda: And(e1.n == e0.n, lambda: All(0, e0.n, cam))),
            ('every older frame pose', lambda: All(0, nf - 1, fr)),
            ('the newest frame equals the corrected IMU pose and velocity', last)]


def pre(p):
    f, e = p.fm.frames, p.fm.extrinsics
    return pre_state(p) + [('window numbered consecutively', wf_window(f)),
                           ('unit attitudes', lambda: And(unit(p.pq.items[0].nominalState.q_wb), All(0, e.n, lambda i: unit(e[i].q_bc)), All(0, f.n, lambda i: unit(f[i].q_wb)))),
                           ('the covariance fits the state', lambda: square(p, IMU + sizes(p))), ('the measurement equation fits the state', And(p.this.Hx_r.rows >= 1, p.this.Hx_r.rows <= 30000, lambda: p.this.Hx_r.cols == IMU + sizes(p) + 1)),
                           ('the innovation covariance is positive definite', lambda: positive(innovation(p)))]


def keeps(k):
    """cameras and frames the loops have not reached yet are untouched"""
    fr = k.pre.fm.frames
    n = lambda z: z.n
    return [('cameras ahead: %s' % w, ('fm', 'extrinsics', '[]', w), lambda z: lambda a: spec.lit(zi(a[0]) < z.n)) for w in ('p_bc', 'q_bc')] + \
        [('frames ahead: %s' % w, ('Frame', w), lambda z: lambda a: before(z.pre, a[0], z.n)) for w in ('p_wb', 'q_wb')]


def before(p, r, n):
    i = ObjAt(p, 'Frame', r).id - p.fm.frames[0].id
    return eng.band(zi(i) >= 0, zi(i) < n)


def inv(k):
    """cameras (first loop) and frames (second loop) passed are corrected"""
    p = k.pre
    e, f = p.fm.extrinsics, p.fm.frames
    off = IMU + 6 * e.n

    def cam(z, i):
        d, x, c = z.cur.this.delta_x, z.cur.fm.extrinsics[i], IMU + 6 * i
        return Imp(i < z.n, lambda: And(Eq(x.p_bc, add(e[i].p_bc, seg(d, c))), Eq(x.q_bc, turned(e[i].q_bc, seg(d, c + 3)))))

    def fr(z, i):
        d, x, c = z.cur.this.delta_x, z.cur.fm.frames[i], off + 6 * i
        return Imp(i < z.n, lambda: And(Eq(x.p_wb, add(f[i].p_wb, seg(d, c))), Eq(x.q_wb, turned(f[i].q_wb, seg(d, c + 3)))))
    mod = {h[0] for h in k.L.havoc}
    if ('fm', 'extrinsics', '[]', 'q_bc') in mod:
        return [('cameras passed are corrected', lambda z: All(0, e.n, lambda i: cam(z, i)))]
    if ('Frame', 'q_wb') in mod:
        return [('not beyond the newest frame', lambda z: z.n < f.n), ('frames passed are corrected', lambda z: All(0, f.n, lambda i: fr(z, i)))] + \
            [('index counts frames', lambda z, v=v: Eq(z.now(v), z.n)) for v in k.locals('int')]
    return []


WIN = lambda p, lo, hi: lambda r: Ex(lo, hi, lambda i: Eq(p.fm.frames[i].ref, r))


def mods(p):
    n = p.fm.frames.n
    return [p.this.at(x) for x in ('delta_x', 'covariance', 'meas_covariance', 'K')] + [Heap('IMUPropagateQueueItem', 'nominalState', lambda r: Eq(r, p.pq.items[0].ref)), p.pq.at('bias_a'), p.pq.at('bias_g'), p.fm.extrinsics,
            Heap('Frame', 'p_wb', WIN(p, 0, n)), Heap('Frame', 'q_wb', WIN(p, 0, n)), Heap('Frame', 'v_wb', lambda r: Eq(r, p.fm.frames[n - 1].ref))]


CONTRACTS = [
    Contract('MultiViewVisionUpdate::UpdateState', ensures=updated, gen=gens.kalman, setup=W, requires=pre, modifies=mods, invariants=inv, keeps=keeps,
             unitfam=('Frame.q_wb', 'fm.extrinsics.[].q_bc', 'IMUPropagateQueueItem.nominalState.q_wb')),
]
CHECK_DEPS = []
NOTE = 'exact real arithmetic; the eigen decomposition of the library is trusted'
