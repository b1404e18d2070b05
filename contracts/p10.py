"""P10: the propagation history is one consistent chain and is published faithfully."""
from .lib import *
import z3
from vc import eng
from vc.spec import zi
from .p08 import motion_post, motion_step, mid_gyro, mid_accel
from .p09 import model_F, model_G, unwritten, cov_step
from . import gens

IT = 'IMUPropagateQueueItem'


def cov_step_c(a, b, ma, mg, Qn):
    """covariances of entry b propagated from entry a"""
    dt = real(b.timeStamp - a.timeStamp)
    R0 = rotm(a.nominalState.q_wb)
    F_, G_ = model_F(R0, ma, mg, dt), model_G(R0, dt)
    return [('IMU covariance of the step', Eq(b.imuCov, add(mul(F_, a.imuCov, tr(F_)), mul(G_, Qn, tr(G_))), 1e-3)),
            ('cross covariance of the step', Eq(b.imuExCamCov, mul(F_, a.imuExCamCov), 1e-3))]


def motion_of(a, b, ba, bg, g):
    return Opq('motion step', *motion_step(a.nominalState, a, b, b.nominalState, ba, bg, g))


def cov_of(a, b, ba, bg, Qn):
    return Opq('covariance step', *cov_step(a, b, a.imuCov, a.imuExCamCov, b.imuCov, b.imuExCamCov, mid_accel(a, b, ba), mid_gyro(a, b, bg), Qn))


def cov_step_by(a, b, F_, G_, Qn):
    return [('IMU covariance of the step', Eq(b.imuCov, add(mul(F_, a.imuCov, tr(F_)), mul(G_, Qn, tr(G_))), 1e-3)),
            ('cross covariance of the step', Eq(b.imuExCamCov, mul(F_, a.imuExCamCov), 1e-3))]


def sample(b, accel, gyro, t):
    return And(Eq(b.accel, accel), Eq(b.gyro, gyro), Eq(b.timeStamp, t))


def prop_post(p, q):
    x, y = p.this.items, q.this.items
    first = x.n == 0
    ncam = p.fm.extrinsics.n * 6 + 6
    s = p.this.initState

    def start():
        b = y[0]
        n = b.nominalState
        return And(Eq(n.p_wb, s.p_wb), Eq(n.v_wb, s.v_wb), Eq(n.q_wb, s.q_wb), Eq(b.imuCov, zeros(15, 15)), Eq(b.imuExCamCov, zeros(15, ncam)), Eq(q.this.exCamCov, zeros(ncam, ncam)))

    def dyn(a, b):
        R0, dt = rotm(a.nominalState.q_wb), real(b.timeStamp - a.timeStamp)
        return [('F', Eq(q.this.F, model_F(R0, mid_accel(a, b, p.this.bias_a), mid_gyro(a, b, p.this.bias_g), dt))), ('G', Eq(q.this.G, model_G(R0, dt)))]

    def step(fn):
        def f():
            a, b = x[x.n - 1], y[y.n - 1]
            return And(*[z for _, z in fn(a, b)])
        return f
    ab = lambda: (x[x.n - 1], y[y.n - 1])
    if not spec.CONC:
        steps = [('a later entry is one integration step from the newest', Imp(Not(first), motion_of(*ab(), p.this.bias_a, p.this.bias_g, p.gravity))),
                 ('a later entry is one covariance step from the newest', Imp(Not(first), cov_of(*ab(), p.this.bias_a, p.this.bias_g, p.this.Q)))]
    else:
        steps = [('a later entry is one integration step from the newest', Imp(Not(first), step(lambda a, b: motion_post(a.nominalState, a, b, b.nominalState, p.this.bias_a, p.this.bias_g, p.gravity)))),
                 ('a later entry is one covariance step from the newest', Imp(Not(first), step(lambda a, b: cov_step_by(a, b, q.this.F, q.this.G, p.this.Q))))]
    return steps + [('always succeeds', q.ret),
            ('extended by exactly one entry', And(y.n == x.n + 1, lambda: All(0, x.n, lambda i: Same(y[i], x[i])))),
            ('the new entry carries the sample', lambda: sample(y[y.n - 1], p.accel, p.gyro, p.t)),
            ('the first entry takes the initial motion state with zero covariance', Imp(first, start)),
            ('a later entry uses the linearised dynamics of its interval', Imp(Not(first), step(lambda a, b: dyn(a, b)))),
            ('camera and frame covariance unchanged by a step', Imp(Not(first), lambda: Eq(q.this.exCamCov, p.this.exCamCov)))] + unwritten(q.this)


def distinct(x):
    return All(0, x.n, lambda i: And(nonnull(x[i]), lambda: All(0, i, lambda j: Not(Same(x[i], x[j])))))


def repro_post(p, q):
    x, y = p.this.items, q.this.items

    def chain():
        return All(1, y.n, lambda i: And(*[z for _, z in motion_post(y[i - 1].nominalState, y[i - 1], y[i], y[i].nominalState, p.this.bias_a, p.this.bias_g, p.gravity) +
                                           cov_step_c(y[i - 1], y[i], mid_accel(y[i - 1], y[i], p.this.bias_a), mid_gyro(y[i - 1], y[i], p.this.bias_g), p.this.Q)]))
    if not spec.CONC:
        ch = chains(y, p)
    else:
        ch = [('every later entry is one step from its predecessor', chain)]
    return ch + [('always succeeds', q.ret), ('same entries in the same order', same_seq(y, x)),
            ('samples and times are left alone', All(0, x.n, lambda i: sample(y[i], x[i].accel, x[i].gyro, x[i].timeStamp))),
            ('the first entry is unchanged', Imp(x.n > 0, lambda: And(Eq(y[0].nominalState.p_wb, x[0].nominalState.p_wb), Eq(y[0].nominalState.v_wb, x[0].nominalState.v_wb), Eq(y[0].nominalState.q_wb, x[0].nominalState.q_wb),
                                                                      Eq(y[0].imuCov, x[0].imuCov), Eq(y[0].imuExCamCov, x[0].imuExCamCov))))]


def chains(y, p, hi=None):
    b = p.this
    hi = y.n if hi is None else hi
    return [('every later entry is one integration step from its predecessor', AllOpq(1, hi, 'motion step', lambda i: motion_of(y[i - 1], y[i], b.bias_a, b.bias_g, p.gravity).reads(), motion_of(y[0], y[0], b.bias_a, b.bias_g, p.gravity).rel)),
            ('every later entry is one covariance step from its predecessor', AllOpq(1, hi, 'covariance step', lambda i: cov_of(y[i - 1], y[i], b.bias_a, b.bias_g, b.Q).reads(), cov_of(y[0], y[0], b.bias_a, b.bias_g, b.Q).rel)),
            ('unit attitudes', All(0, y.n, lambda i: unit(y[i].nominalState.q_wb)))]


POS = z3.Function('position of entry', z3.IntSort(), z3.IntSort())


def positions(p):
    """the entries are distinct: each has its position"""
    x = p.this.items
    return [('positions', All(0, x.n, lambda i: spec.lit(POS(zi(x[i].ref)) == zi(i))))]


def repro_keeps(k):
    ahead = lambda z: lambda a: eng.band(POS(zi(a[0])) >= 1, POS(zi(a[0])) <= z.n)
    fields = [('nominalState', f) for f in ('p_wb', 'v_wb', 'q_wb')] + [('imuCov',), ('imuExCamCov',)]
    return [('entries ahead: %s' % f[-1], (IT,) + f, ahead) for f in fields]


def repro_inv(k):
    p = k.pre
    return [(nm, lambda z, j=j: chains(z.cur.this.items, p, z.n + 1)[j][1]) for j, nm in enumerate(('motion', 'covariance', 'unit'))] + \
        [('the rest is unchanged', lambda z: And(*[f for _, f in unwritten(z.cur.this)]))] + \
        [('before the end', lambda z: z.n <= p.this.items.n)]


def reset_post(p, q):
    x, y = p.this.items, q.this.items
    old = lambda i: p.t - x[i].timeStamp > p.threshold
    d = x.n - y.n
    return [('entries are dropped from the front only', And(d >= 0, lambda: All(0, y.n, lambda i: Same(y[i], x[i + d])))),
            ('dropped entries are older than the tolerance', lambda: All(0, d, old)),
            ('the first entry kept is not', Imp(y.n > 0, lambda: Not(old(d)))),
            ('succeeds exactly when an entry remains', Iff(q.ret, y.n > 0))]


def reset_inv(k):
    p = k.pre
    x = p.this.items
    d = lambda z: x.n - z.cur.this.items.n
    return [('a suffix remains', lambda z: And(d(z) >= 0, z.cur.this.items.n >= 1, lambda: All(0, z.cur.this.items.n, lambda i: Same(z.cur.this.items[i], x[i + d(z)])))),
            ('dropped are old', lambda z: All(0, d(z), lambda i: p.t - x[i].timeStamp > p.threshold))]


def pub_post(pick):
    def f(p, q):
        x = p.this.propagator.items
        pr = p.this.propagator
        s = q.state

        def same():
            e = pick(x)
            return And(Eq(s.p_wb, e.nominalState.p_wb), Eq(s.q_wb, e.nominalState.q_wb), Eq(s.v_wb, e.nominalState.v_wb), Eq(s.bias_a, pr.bias_a), Eq(s.bias_g, pr.bias_g), Eq(q.t, e.timeStamp))
        return [('succeeds exactly when there is an entry', Iff(q.ret, x.n > 0)), ('state of that entry with the current biases', Imp(x.n > 0, same))]
    return f


nonnull_items = lambda x: All(0, x.n, lambda i: nonnull(x[i]))
PUBMOD = lambda p: [p.at('state.' + n) for n in ('p_wb', 'q_wb', 'v_wb', 'bias_a', 'bias_g')] + [p.at('t')]
GR = dict(gravity='IMUFullState::gravity_w')
W = wire(('this.propagator', 'fm', 'FrameManager'))

CONTRACTS = [
    Contract('PropagateQueue::Propagate', globals=GR, params=['accel', 'gyro', 't'], ensures=prop_post, gen=gens.prop, setup=W,
             requires=lambda p: [('at most a thousand cameras', p.fm.extrinsics.n <= 1000), ('entries exist', nonnull_items(p.this.items)), ('newest attitude is a unit quaternion', Imp(p.this.items.n > 0, lambda: unit(p.this.items[p.this.items.n - 1].nominalState.q_wb)))] + [(n, Imp(p.this.items.n > 0, f)) for n, f in unwritten(p.this)],
             modifies=lambda p: [p.this.items, p.this.at('F'), p.this.at('G'), p.this.at('exCamCov')]),
    Contract('PropagateQueue::Repropagate', globals=GR, ensures=repro_post, gen=gens.repro, setup=W, invariants=repro_inv, keeps=repro_keeps, ghostfacts=positions,
             requires=lambda p: [('entries are distinct objects', distinct(p.this.items)), ('unit attitudes', All(0, p.this.items.n, lambda i: unit(p.this.items[i].nominalState.q_wb)))] + unwritten(p.this),
             modifies=lambda p: [p.this.at('F'), p.this.at('G'), Heap(IT, 'nominalState'), Heap(IT, 'imuCov'), Heap(IT, 'imuExCamCov')]),
    Contract('PropagateQueue::ResetOrigin', params=['t', 'threshold'], ensures=reset_post, invariants=reset_inv, gen=gens.reset_origin, modular=True,
             requires=lambda p: [('entries exist', nonnull_items(p.this.items))], modifies=lambda p: [p.this.items]),
    Contract('Backend::PublishPropagateState', params=['state', 't'], ensures=pub_post(lambda x: x[x.n - 1]), gen=gens.publish, requires=lambda p: [('entries exist', nonnull_items(p.this.propagator.items))], modifies=PUBMOD),
    Contract('Backend::PublishUpdateState', params=['state', 't'], ensures=pub_post(lambda x: x[0]), gen=gens.publish, requires=lambda p: [('entries exist', nonnull_items(p.this.propagator.items))], modifies=PUBMOD),
]
