"""P11: the full covariance is assembled, augmented and stored back without mixing blocks."""
from .lib import *
from . import gens

IMU = 15
W = wire(('this.propagator', 'pq', 'PropagateQueue'), ('this.frameManager', 'fm', 'FrameManager'), ('this.featureManager', 'fe', 'FeatureManager'))


def sel(c, a, b):
    return (a if c else b) if spec.CONC or isinstance(c, bool) else eng.ite(c, a, b)


def both(*cs):
    return all(cs) if spec.CONC else eng.band(*cs)


def sizes(p):
    """number of camera and frame columns while the newest frame has none of its own"""
    return 6 * (p.fm.extrinsics.n + p.fm.frames.n - 1)


def pre_state(p):
    f, x = p.fm.frames, p.pq.items
    return [('there is a frame and an entry', And(f.n >= 1, x.n >= 1, lambda: And(nonnull(f[f.n - 1]), nonnull(x[0])))), ('at most a thousand cameras and frames', And(p.fm.extrinsics.n <= 1000, f.n <= 1000))]


def assembled(p, q):
    x = p.pq.items[0]
    c = sizes(p)
    fits = And(x.imuExCamCov.cols == c)
    n = IMU + c
    P, B, C = x.imuCov, x.imuExCamCov, p.pq.exCamCov

    def el(i, j):
        if spec.CONC:
            return (P.get(i, j) if j < IMU else B.get(i, j - IMU)) if i < IMU else (B.get(j, i - IMU) if j < IMU else C.get(i - IMU, j - IMU))
        return sel(i < IMU, sel(j < IMU, P.get(i, j), B.get(i, j - IMU)), sel(j < IMU, B.get(j, i - IMU), C.get(i - IMU, j - IMU)))

    def blocks():
        A = q.this.covariance
        return And(A.rows == n, A.cols == n,
                   lambda: All(0, IMU, lambda i: All(0, IMU, lambda j: Eq(A.get(i, j), P.get(i, j)))),
                   lambda: All(0, IMU, lambda i: All(0, c, lambda j: And(Eq(A.get(i, j + IMU), B.get(i, j)), Eq(A.get(j + IMU, i), B.get(i, j))))),
                   lambda: All(0, c, lambda i: All(0, c, lambda j: Eq(A.get(i + IMU, j + IMU), C.get(i, j)))))
    return [('a mismatch is refused and nothing else is', Iff(q.ret, fits)), ('all four blocks in place', Imp(fits, blocks))]


def stored(p, q):
    A = p.this.covariance
    x, c = q.pq.items[0], A.cols - IMU
    return [('always succeeds', q.ret), ('IMU block', Eq(x.imuCov, blk(A, 0, 0, IMU, IMU))), ('cross block', Eq(x.imuExCamCov, blk(A, 0, IMU, IMU, c))), ('camera and frame block', Eq(q.pq.exCamCov, blk(A, IMU, IMU, c, c)))]


def jrow(k):
    """row k of the pose selection J: position, attitude of the IMU"""
    return sel(k < 3, k, k + 3)


def augmented(p, q):
    A, B = p.this.covariance, q.this.covariance
    n = A.rows

    def rest():
        return And(All(0, n, lambda i: All(0, n, lambda j: Eq(B.get(i, j), A.get(i, j)))),
                   All(0, 6, lambda k: All(0, n, lambda j: And(Eq(B.get(n + k, j), A.get(jrow(k), j)), Eq(B.get(j, n + k), A.get(jrow(k), j))))),
                   All(0, 6, lambda k: All(0, 6, lambda l: Eq(B.get(n + k, n + l), A.get(jrow(k), jrow(l))))))
    return [('always succeeds', q.ret), ('six rows and columns more', And(B.rows == n + 6, B.cols == n + 6)), ('old entries stay, new ones are those of the selected pose', rest)]


def newest_pose(p, q):
    f = p.fm.frames

    def same():
        a, s = q.fm.frames[f.n - 1], p.pq.items[0].nominalState
        return And(Eq(a.p_wb, s.p_wb), Eq(a.v_wb, s.v_wb), Eq(a.q_wb, s.q_wb))
    return [('succeeds exactly when there is a frame', Iff(q.ret, f.n >= 1)), ('newest frame has the pose and velocity of the update time', Imp(f.n >= 1, same))]


def square(p, n):
    A = p.this.covariance
    return And(A.rows == n, A.cols == n)


def square_of_state(p, extra=0):
    return [('the covariance is square and fits the state', lambda: square(p, IMU + sizes(p) + extra))]


def blocks_fit(p):
    x = p.pq.items[0]
    return [('camera and frame block is square with the columns of the cross block', lambda: And(p.pq.exCamCov.rows == x.imuExCamCov.cols, p.pq.exCamCov.cols == x.imuExCamCov.cols))]


newest = lambda p: p.fm.frames[p.fm.frames.n - 1]
CONTRACTS = [
    Contract('MultiViewVisionUpdate::ConstructCovariance', ensures=assembled, gen=gens.assemble, setup=W, modular=True, requires=lambda p: pre_state(p) + blocks_fit(p), modifies=lambda p: [p.this.at('covariance')]),
    Contract('MultiViewVisionUpdate::ExpandCameraCovariance', ensures=augmented, gen=gens.expand, setup=W, modular=True, requires=lambda p: pre_state(p) + square_of_state(p), modifies=lambda p: [p.this.at('covariance'), p.this.at('expand_J')]),
    Contract('MultiViewVisionUpdate::UpdateCovariance', ensures=stored, gen=gens.store, setup=W, modular=True,
             requires=lambda p: pre_state(p) + [('the covariance is square and covers the IMU state', And(p.this.covariance.rows == p.this.covariance.cols, p.this.covariance.rows >= IMU, p.this.covariance.rows <= 30000))],
             modifies=lambda p: [Heap('IMUPropagateQueueItem', 'imuCov', lambda r: Eq(r, p.pq.items[0].ref)), Heap('IMUPropagateQueueItem', 'imuExCamCov', lambda r: Eq(r, p.pq.items[0].ref)), p.pq.at('exCamCov') if hasattr(p.pq, 'at') else None]),
    Contract('MultiViewVisionUpdate::UpdateNewestFramePose', ensures=newest_pose, gen=gens.newest_pose, setup=W, modular=True,
             requires=lambda p: [('entries and frames exist', And(p.pq.items.n >= 1, lambda: nonnull(p.pq.items[0]), Imp(p.fm.frames.n >= 1, lambda: nonnull(newest(p)))))],
             modifies=lambda p: [Heap('Frame', n, lambda r: And(p.fm.frames.n >= 1, lambda: Eq(r, newest(p).ref))) for n in ('p_wb', 'v_wb', 'q_wb')]),
]
NOTE = 'exact real arithmetic: the entries are copied, no rounding is involved'
