"""P07: one processing step."""
from .lib import *
from . import gens
from .p05 import wf_window, counted
from .p04 import wf_feature, final
from . import p01

GR = dict(gravity='IMUFullState::gravity_w')
NEED, INIT = 1, 2


def ok(f):
    return spec.holds(f, '')[0]


def dims(b):
    """every stored covariance has the size of the cameras and frames in the window"""
    m, x = b.frameManager, b.propagator.items
    c = 6 * (m.extrinsics.n + m.frames.n)
    return And(b.propagator.exCamCov.rows == c, b.propagator.exCamCov.cols == c,
               lambda: All(0, x.n, lambda i: And(nonnull(x[i]), lambda: And(x[i].imuCov.rows == 15, x[i].imuCov.cols == 15, x[i].imuExCamCov.rows == 15, x[i].imuExCamCov.cols == c))))


def tracks(b):
    """every stored feature is well formed and lies within the window"""
    m, fr = b.featureManager.features, b.frameManager.frames
    return AllKeys(m, lambda k: Imp(m.has(k), lambda: And(nonnull(m[k]), lambda: And(wf_feature(m[k], k), counted(m[k]), lambda: fr.n >= 1, lambda: m[k].firstFrameID >= fr[0].id, lambda: final(m[k]) < fr[0].id + fr.n))))


def known(b):
    """the features a frame of the window lists are stored ones"""
    m, fr = b.featureManager.features, b.frameManager.frames
    return All(0, fr.n, lambda i: AllKeys(fr[i].features, lambda k: Imp(fr[i].features.has(k), lambda: nonnull(fr[i].features[k]))))


def consistent(b):
    m = b.frameManager
    return [('window numbered consecutively', wf_window(m.frames)), ('window bounded', m.frames.n <= m.maxWindowSize), ('tracks within the window', tracks(b)),
            ('an initialised estimator has covariances of the right size and a window', Imp(b.status == INIT, lambda: And(m.frames.n >= 1, lambda: dims(b)))), ('while not initialised there is at most one frame', Imp(b.status == NEED, m.frames.n <= 1)),
            ('status', Or(b.status == NEED, b.status == INIT)), ('lists of features', known(b)), ('order of the buffers', p01.inv(b.dataloader))]


def taken(a, b):
    """at most the first element was taken"""
    return Or(And(Eq(b.n, a.n), lambda: All(0, b.n, lambda i: Same(b[i], a[i]))), lambda: And(Eq(b.n, a.n - 1), lambda: All(0, b.n, lambda i: Same(b[i], a[i + 1]))))


def same_frame(a, b):
    return And(Same(a, b), Same(a.q_wb, b.q_wb), Same(a.p_wb, b.p_wb), Same(a.v_wb, b.v_wb), Eq(a.id, b.id), Same(a.timeStamp, b.timeStamp))


def same_feature(a, b):
    return And(Same(a, b), Eq(a.firstFrameID, b.firstFrameID), Eq(a.observes.n, b.observes.n), Eq(a.observeNum, b.observeNum), Same(a.p_w, b.p_w), Eq(a.status, b.status), lambda: All(0, a.observes.n, lambda i: Same(a.observes[i], b.observes[i])))


def untouched(p, q):
    a, b, x, y = p.this.frameManager.frames, q.this.frameManager.frames, p.this.featureManager.features, q.this.featureManager.features
    return And(Eq(a.n, b.n), lambda: All(0, a.n, lambda i: same_frame(b[i], a[i])), lambda: AllKeys([x, y], lambda k: And(Iff(x.has(k), y.has(k)), lambda: Imp(x.has(k), lambda: same_feature(y[k], x[k])))))


def step_post(p, q):
    b, c = p.this, q.this
    fa, fb, ia, ib = b.dataloader.featMeas, c.dataloader.featMeas, b.dataloader.imuMeas, c.dataloader.imuMeas
    none = fa.n == 0 and ia.n == 0
    feat = fb.n < fa.n
    fr = c.frameManager.frames

    def stored():
        """the message is stored as the newest frame, except what marginalisation takes away"""
        m = fa[0]
        n = fr[fr.n - 1]
        if m.ids.n != m.observes.n:
            return True
        x = c.featureManager.features
        return And(Same(n.timeStamp, m.timeStamp), lambda: All(0, m.ids.n, lambda i: Imp(m.observes[i].norms.n > 0, lambda: And(x.has(m.ids[i]), lambda: Eq(final(x[m.ids[i]]), n.id), lambda: Ex(0, m.ids.n, lambda j: And(Eq(m.ids[j], m.ids[i]), Same(x[m.ids[i]].observes[x[m.ids[i]].observes.n - 1], m.observes[j]))), lambda: n.features.has(m.ids[i])))))

    def fresh():
        x, y = b.propagator.items, c.propagator.items
        old = {x[i].ref for i in range(x.n)}
        return all(y[i].ref not in old for i in range(y.n))

    def origin():
        y = c.propagator.items
        return And(y.n >= 1, lambda: Not(fa[0].timeStamp - y[0].timeStamp > b.dataloader.imuPeriod))
    return [('nothing waiting: the step reports failure', Imp(none, Not(q.ret))),
            ('at most one delivery is consumed', And(taken(fa, fb), taken(ia, ib), Imp(Not(none), fb.n + ib.n < fa.n + ia.n))),
            ('a step without feature data changes no frame or feature', Imp(Not(feat), lambda: And(untouched(p, q), Eq(c.status, b.status)))),
            ('consistent estimator', And(*[f for _, f in consistent(c)])),
            ('after a failed initialisation or update exactly the newest frame remains', Imp(feat and c.status == NEED, lambda: And(Eq(fr.n, 1), lambda: Same(fr[0].timeStamp, fa[0].timeStamp)))),
            ('the attitude uses the filter biases after a successful update', Imp(feat and c.status == INIT, lambda: And(Same(c.attitudeEstimator.bias_a, c.propagator.bias_a), Same(c.attitudeEstimator.bias_g, c.propagator.bias_g)))),
            ('other steps leave the biases alone', Imp(Not(feat), lambda: And(Same(c.propagator.bias_a, b.propagator.bias_a), Same(c.propagator.bias_g, b.propagator.bias_g), Same(c.attitudeEstimator.bias_a, b.attitudeEstimator.bias_a), Same(c.attitudeEstimator.bias_g, b.attitudeEstimator.bias_g)))),
            ('initialisation discards stale propagation data', Imp(b.status == NEED and c.status == INIT, fresh)),
            ('a successful update moves the origin to the frame', Imp(feat and c.status == INIT, origin)),
            ('every sample reaches attitude tracking and, once initialised, propagation', Imp((not feat) and ib.n < ia.n, lambda: sampled(p, q, ia[0]))),
            ('the message becomes the newest frame', Imp(feat, stored))]


def sampled(p, q, m):
    x, y, a = p.this.propagator.items, q.this.propagator.items, p.this.status
    at = lambda e: And(Same(e.accel, m.accel), Same(e.gyro, m.gyro), Same(e.timeStamp, m.timeStamp))
    u, v = p.this.attitudeEstimator.items, q.this.attitudeEstimator.items
    return And(Cond(a == INIT, lambda: And(Eq(y.n, x.n + 1), lambda: at(y[y.n - 1])), lambda: Eq(y.n, x.n)), Imp(And(u.n > 0, lambda: Not(m.timeStamp < u[u.n - 1].timeStamp)), lambda: And(Eq(v.n, u.n + 1), lambda: at(v[v.n - 1]))))


# ---------------------------------------------------------------- parts of a step
def grown(p, q):
    b, c = p.this, q.this
    a, z = b.frameManager.frames, c.frameManager.frames
    m = p.m

    def done():
        n = z[z.n - 1]
        x = c.featureManager.features
        good = m.ids.n == m.observes.n
        return And(Eq(z.n, a.n + 1), lambda: All(0, a.n, lambda i: same_frame(z[i], a[i])), lambda: Same(n.timeStamp, m.timeStamp), wf_window(z),
                   Imp(good, lambda: And(tracks(c), All(0, m.ids.n, lambda i: Imp(m.observes[i].norms.n > 0, lambda: And(x.has(m.ids[i]), lambda: Eq(final(x[m.ids[i]]), n.id), lambda: Same(n.features[m.ids[i]], x[m.ids[i]])))))))
    return [('no message, no frame', Iff(q.ret, nonnull(p.m))), ('one new frame with the observations of the message', Imp(nonnull(p.m), done))]


def shrunk(p, q):
    b, c = p.this, q.this
    a, z = b.frameManager.frames, c.frameManager.frames
    k = {1: 0, 2: a.n - 1, 3: a.n - 2}.get(p.policy)
    if k is None:
        return [('nothing to drop', And(Iff(q.ret, p.policy == 4), untouched(p, q)))]
    x, y = b.featureManager.features, c.featureManager.features
    fid = a[k].id

    def left(f):
        s = f.observes[fid - f.firstFrameID].norms.n if f.firstFrameID <= fid <= ok_final(f) else 0
        return f.observeNum - s
    return [('succeeds', q.ret), ('exactly that frame is gone', And(Eq(z.n, a.n - 1), lambda: All(0, z.n, lambda i: Same(z[i], a[i if i < k else i + 1])))), ('numbered consecutively, tracks within the window', And(wf_window(z), tracks(c))),
            ('features without observation are gone, the others keep the rest', AllKeys([x, y], lambda j: And(Iff(y.has(j), And(x.has(j), lambda: left(x[j]) > 0)), lambda: Imp(y.has(j), lambda: Eq(y[j].observeNum, left(x[j]))))))]


def ok_final(f):
    return f.firstFrameID + f.observes.n - 1


def drop_pre(p):
    b = p.this
    return [('window numbered consecutively', wf_window(b.frameManager.frames)), ('tracks within the window', tracks(b)), ('a frame to drop', b.frameManager.frames.n >= {1: 1, 2: 1, 3: 3}.get(p.policy, 0))]   # with two frames the second newest is the oldest: DecideMargPolicy names it so


WHY = 'one step on sampled consistent states; every history is covered only as far as each step preserves consistency'
CONTRACTS = [
    Contract('Backend::RunOnce', name='Backend::RunOnce (numeric)', params=[], globals=GR, bounded=WHY, requires=lambda p: consistent(p.this), ensures=step_post, gen=gens.run_once),
    Contract('Backend::UpdateFeatureFrameManager', name='Backend::UpdateFeatureFrameManager (sampled)', params=['m'], bounded=WHY, requires=lambda p: consistent(p.this), ensures=grown, gen=gens.grow),
    Contract('Backend::MarginalizeFeatureFrameManager', name='Backend::MarginalizeFeatureFrameManager (sampled)', params=['policy'], bounded=WHY, requires=drop_pre, ensures=shrunk, gen=gens.drop),
]
NOTE = 'bounded check: sampled steps'
LEVEL = 'exploration'
