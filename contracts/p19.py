"""P19: initialisation."""
from .lib import *
from . import gens
from . import p15, p16, p17
from .p15 import camera, fits, unsolvable, in_front, SOLVED, UNSOLVED

GR = dict(gravity='IMUFullState::gravity_w')


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def frame_views(b, fr, f):
    """what one frame saw of a feature, with the camera poses"""
    v = NS(qs=p15.L(), ps=p15.L(), zs=p15.L())
    o = f.observes[fr.id - f.firstFrameID].norms
    for c in sorted(o.d):
        qq, pp = camera(NS(fm=b.frameManager), fr, c)
        v.qs.append(qq)
        v.ps.append(pp)
        v.zs.append(o[c])
    return v


def known(fr, f):
    return fr.id >= f.firstFrameID and fr.id - f.firstFrameID < f.observes.n and f.observes[fr.id - f.firstFrameID].norms.n >= 0


def same_frame(a, b):
    return And(Same(a.q_wb, b.q_wb), Same(a.p_wb, b.p_wb), Same(a.v_wb, b.v_wb))


# ---------------------------------------------------------------- triangulation within one frame
def triangulated(b, fr0, fr1, q_of):
    """every feature of the frame is judged on the views of that frame"""
    for k in sorted(fr1.features.d):
        f0, f1 = fr1.features[k], q_of(k)
        v = frame_views(b, fr0, f0)
        ok = f1.status == SOLVED
        x = NS(x=f1.p_w)
        if not ok and f1.status != UNSOLVED:
            return False
        if v.qs.n < 2 and ok:
            return False
        if v.qs.n >= 2:
            if ok and not (fits(v, f1.p_w) and in_front(v, x)):
                return False
            if not ok and not unsolvable(v):
                return False
    return True


def multi_post(p, q):
    return [('no frame, no triangulation', Iff(q.ret, Not(p.frame.null))), ('every feature of the frame is solved exactly when the views of this frame allow it', Imp(Not(p.frame.null), lambda: triangulated(p.this, p.frame, p.frame, lambda k: q.frame.features[k])))]


# ---------------------------------------------------------------- pose of a frame from solved points
def usable(fr, f):
    i = fr.id - f.firstFrameID
    return f.status == SOLVED and 0 <= i < f.observes.n and f.observes[i].norms.has(0)


def solved_pose(b, fr, start, feats):
    """body pose from the points, in double precision"""
    import numpy as np
    s = b.pnpSolver
    xs = [f.p_w.lst() for f in feats]
    zs = [f.observes[fr.id - f.firstFrameID].norms[0].lst() for f in feats]
    qq, pp = camera(NS(fm=b.frameManager), start, 0)
    pr = NS(xs=p15.L(NS(lst=lambda v=v: v) for v in xs), zs=p15.L(NS(lst=lambda v=v: v) for v in zs), q=qq, p=pp)
    return p16.reference(pr, lambda x, z, a, c: p16.gauss_newton(x, z, a, c, s.maxIterateTimes, s.maxNormDeltaX, True))


def pose_fits(b, fr1, ref):
    """camera pose implied by the body pose of the frame against the reference"""
    import numpy as np
    qq, pp = camera(NS(fm=b.frameManager), fr1, 0)
    a, c = np.array(qq.c, float), np.array(ref[0])
    if (a * c).sum() < 0:
        a = -a
    return bool(np.abs(a - c).max() < 5e-3 and np.abs(np.array(pp.lst(), float) - ref[1]).max() < 1e-2 * max(1.0, np.abs(ref[1]).max()))


def pose_post(p, q):
    fs = [] if p.frame.null else [p.frame.features[k] for k in sorted(p.frame.features.d) if usable(p.frame, p.frame.features[k])]

    def solved():
        ref = solved_pose(p.this, p.frame, p.frame, fs)
        return And(q.ret, pose_fits(p.this, q.frame, ref), Same(q.frame.v_wb, p.frame.v_wb))
    return [('fewer than ten points of the first camera are refused and leave the pose alone', Imp(p.frame.null or len(fs) < 10, lambda: And(Not(q.ret), p.frame.null or same_frame(q.frame, p.frame)))),
            ('the body pose corresponds to the camera pose that solves the points', Imp(Not(p.frame.null) and len(fs) >= 10, solved))]


# ---------------------------------------------------------------- propagation from the first frame
def kept_items(b, t):
    x, th = b.attitudeEstimator.items, b.dataloader.imuPeriod
    k = 0
    while k < x.n:
        d = t - x[k].timeStamp - th
        if abs(d) < 1e-9:
            from vc.concrete import Ambiguous
            raise Ambiguous()
        if d <= 0:
            break
        k += 1
    return [x[i] for i in range(k, x.n)]


def propagation(p, q, m, t):
    """propagation restarted from motion state m over the raw samples since t"""
    its, y = kept_items(p.this, t), q.this.propagator.items
    s = q.this.propagator.initState
    raw = And(Eq(y.n, len(its)), lambda: All(0, y.n, lambda i: And(Same(y[i].accel, its[i].accel), Same(y[i].gyro, its[i].gyro), Same(y[i].timeStamp, its[i].timeStamp))))
    st = And(Same(s.p_wb, m.p_wb), Same(s.v_wb, m.v_wb), Same(s.q_wb, m.q_wb))
    pb, qb = p.this.propagator, q.this.propagator
    return And(st, raw, Same(qb.bias_a, pb.bias_a), Same(qb.bias_g, pb.bias_g), lambda: Imp(y.n > 0, lambda: And(Same(y[0].nominalState.p_wb, m.p_wb), Same(y[0].nominalState.v_wb, m.v_wb), Same(y[0].nominalState.q_wb, m.q_wb), Eq(y[0].imuCov, zeros(15, 15)))),
               lambda: All(1, y.n, lambda i: integrated(p, q, y[i - 1], y[i])))


def integrated(p, q, a, c):
    from .p08 import motion_post
    b = q.this.propagator
    return And(*[f for _, f in motion_post(a.nominalState, a, c, c.nominalState, b.bias_a, b.bias_g, p.gravity)])


def prop_post(p, q):
    x, y = p.this.attitudeEstimator.items, q.this.attitudeEstimator.items
    return [('always succeeds', q.ret), ('propagation restarts from the given state over the raw samples of that time and later', lambda: propagation(p, q, p.initState, p.t))]


# ---------------------------------------------------------------- all of it
def init_post(p, q):
    b = p.this
    fr, gr = b.frameManager.frames, q.this.frameManager.frames
    at = b.attitudeEstimator

    def attitude():
        """attitudes known closest to the first frame time"""
        th = b.dataloader.imuPeriod * .55
        ds = [abs(at.items[i].timeStamp - fr[0].timeStamp) for i in range(at.items.n)]
        if any(abs(d - th) < 1e-6 for d in ds):
            from vc.concrete import Ambiguous
            raise Ambiguous()
        if not ds or min(ds) >= th:
            return []
        return [at.items[i].q_wb for i in range(at.items.n) if ds[i] <= min(ds) + 1e-9]

    def conditions():
        if fr.n < 2 or abs(fr[1].timeStamp - fr[0].timeStamp) < 1e-10:
            return False
        return len(attitude()) > 0

    def start_frame():
        """first frame as triangulation sees it"""
        return NS(q_wb=gr[0].q_wb, p_wb=zeros(3, 1), v_wb=gr[0].v_wb, id=fr[0].id, features=fr[0].features)

    def refused():
        c = conditions()
        if not c:
            return Not(q.ret)
        # the points are those of the final state: they are solved before the pose is
        n = sum(1 for k in gr[1].features.d if usable(gr[1], gr[1].features[k]))
        return Imp(n < 10, Not(q.ret)) if q.ret else (n < 10 or weak(n))

    def weak(n):
        # only equations without a solution are left as a reason
        solved_pose(q.this, gr[1], NS(q_wb=gr[0].q_wb, p_wb=gr[0].p_wb), [gr[1].features[k] for k in sorted(gr[1].features.d) if usable(gr[1], gr[1].features[k])])
        return False

    def success():
        a, c = gr[0], gr[1]
        if not any(Q(*a.q_wb.c).c == Q(*k.c).c for k in attitude()):
            return False
        if any(abs(v) > 0 for v in a.p_wb.lst()):
            return False
        s = start_frame()
        if not triangulated(b, s, gr[0], lambda k: gr[0].features[k]):
            return False
        fs = [c.features[k] for k in sorted(c.features.d) if usable(c, c.features[k])]
        ref = solved_pose(q.this, c, NS(q_wb=a.q_wb, p_wb=a.p_wb), fs)
        if not pose_fits(q.this, c, ref):
            return False
        dt = fr[1].timeStamp - fr[0].timeStamp
        v = scale(sub(c.p_wb, a.p_wb), 1 / dt)
        return And(Eq(a.v_wb, v), Eq(c.v_wb, v), lambda: propagation(p, q, a, fr[0].timeStamp))

    return [('succeeds exactly with two frames of distinct time, a known attitude and enough points', refused),
            ('the start state is consistent', Imp(q.ret, success)),
            ('the window is left as it is', And(Eq(gr.n, fr.n), lambda: All(0, fr.n, lambda i: And(Same(gr[i], fr[i]), Eq(gr[i].timeStamp, fr[i].timeStamp)))))]


def unit_pre(p):
    b = p.this
    fr, e = b.frameManager.frames, b.frameManager.extrinsics
    return [('unit attitudes', And(All(0, fr.n, lambda i: unit(fr[i].q_wb)), All(0, e.n, lambda i: unit(e[i].q_bc))))]


WHY = 'judged against a double precision reference on sampled scenes'
CONTRACTS = [
    Contract('Backend::TrianglizeMultiView', name='Backend::TrianglizeMultiView (numeric)', params=['frame'], bounded=WHY, ensures=multi_post, gen=gens.multiview,
             requires=lambda p: unit_pre(p) + [('the frame has seen its features', Imp(Not(p.frame.null), lambda: And(*[known(p.frame, p.frame.features[k]) for k in p.frame.features.d])))]),
    Contract('Backend::EstimateFramePose', name='Backend::EstimateFramePose (numeric)', params=['frame'], bounded=WHY, ensures=pose_post, gen=gens.frame_pose, requires=unit_pre, modifies=lambda p: [Heap('Frame', 'q_wb', lambda r: Eq(r, p.frame.ref)), Heap('Frame', 'p_wb', lambda r: Eq(r, p.frame.ref))]),
    Contract('Backend::InitializePropagator', globals=GR, name='Backend::InitializePropagator (numeric)', params=['initState', 't'], bounded=WHY, ensures=prop_post, gen=gens.start_propagation),
    Contract('Backend::Initialize', globals=GR, name='Backend::Initialize (numeric)', params=[], bounded=WHY, ensures=init_post, gen=gens.start, requires=unit_pre),
]
NOTE = 'exact real arithmetic'
LEVEL = 'exploration'
