"""P17: attitude tracking."""
from .lib import *
from . import gens

IT = 'AttitudeEstimateItem'
GR = dict(gravity='IMUFullState::gravity_w')


def onto(q, a, b):
    """q rotates the direction of a onto the direction of b"""
    return (lambda: [q, a, b]), (lambda q, a, b: And(unit(q), Eq(scale(qrot(q, a), norm(b)), scale(b, norm(a)), 2e-3)))


def near_gravity(p):
    """the bias-corrected sample has the magnitude of gravity"""
    d = absv(norm(p.gravity) - norm(sub(p.accel, p.this.bias_a)))
    lim = D(0.04)
    if spec.CONC and abs(d - lim) < 2e-5:
        from vc.concrete import Ambiguous
        raise Ambiguous()
    return Not(d > lim)


def correction(p, q0):
    """tilt error seen by the accelerometer in the body frame"""
    a, g = p.accel, p.gravity
    if spec.CONC:
        return cross(scale(a, 1 / norm(a)), scale(mul(tr(rotm(q0)), g), 1 / norm(g))) if norm(a) > 1e-10 else zeros(3, 1)
    na, ng = norm(a), norm(g)
    return cross(scale(a, R(1) / na), scale(mul(tr(rotm(q0)), g), R(1) / ng))


def prop_post(p, q):
    x, y = p.this.items, q.this.items
    b = p.this
    first = x.n == 0
    fits = lambda: near_gravity(p)
    older = lambda: x[x.n - 1].timeStamp > p.t
    accepted = lambda: Or(And(first, fits), And(Not(first), lambda: Not(older())))

    def sample():
        e = y[y.n - 1]
        return And(Eq(e.accel, p.accel), Eq(e.gyro, p.gyro), Eq(e.timeStamp, p.t))

    def start():
        return Opq('rotates onto', *onto(y[y.n - 1].q_wb, sub(p.accel, b.bias_a), p.gravity))

    def step(err):
        def f():
            a, e = x[x.n - 1], y[y.n - 1]
            er = err(a)
            ei = add(b.errInt, scale(er, b.Ki))
            w = add(add(sub(scale(add(a.gyro, p.gyro), R(1) / 2), b.bias_g), scale(er, b.Kp)), ei)
            return And(Eq(q.this.errInt, ei), Eq(e.q_wb, qunit(qmul(a.q_wb, smallq(scale(w, real(p.t - a.timeStamp)))))))
        return f
    na = norm(p.accel)
    tilted = na > S(1e-10)
    later = lambda: And(Not(first), lambda: Not(older()))
    begin = And(first, fits)
    return [('a first sample is accepted when its magnitude is that of gravity, a later one when it is not older than the newest', Iff(q.ret, accepted())),
            ('refused samples leave the history alone', Imp(Not(q.ret), lambda: And(same_seq(y, x), Eq(q.this.errInt, b.errInt)))),
            ('extended by exactly one entry', Imp(q.ret, lambda: And(y.n == x.n + 1, lambda: All(0, x.n, lambda i: Same(y[i], x[i]))))),
            ('the new entry carries the sample', Imp(q.ret, sample)),
            ('the attitude is of unit length', Imp(q.ret, lambda: unit(y[y.n - 1].q_wb))), ('the first attitude turns the measured specific force onto gravity', Imp(begin, start)),
            ('a later attitude is advanced by the corrected mean rate', Imp(And(later, tilted), Quiet('corrected step', step(lambda a: correction(p, a.q_wb))))),
            ('without an acceleration there is no correction', Imp(And(later, Not(tilted)), Quiet('uncorrected step', step(lambda a: zeros(3, 1)))))]


def get_post(p, q):
    x = p.this.items
    d = lambda i: absv(x[i].timeStamp - p.t)
    same = lambda i: Eq(q.atti, x[i].q_wb)
    return [('found exactly when an entry is closer than the tolerance', Iff(q.ret, Ex(0, x.n, lambda i: d(i) < p.threshold))),
            ('the attitude of a nearest entry', Imp(q.ret, lambda: Ex(0, x.n, lambda i: And(same(i), lambda: All(0, x.n, lambda j: d(i) <= d(j)))))),
            ('nothing is handed out otherwise', Imp(Not(q.ret), lambda: Same(q.atti, p.atti)))]


def ordered(x):
    return All(0, x.n, lambda i: And(nonnull(x[i]), lambda: All(i + 1, x.n, lambda j: x[i].timeStamp <= x[j].timeStamp)))


def get_inv(k):
    p = k.pre
    x = p.this.items
    return [('entries passed are later', lambda z: All(x.n - z.n, x.n, lambda i: x[i].timeStamp > p.t)), ('not beyond the first', lambda z: z.n < x.n)]


def bias_post(p, q):
    return [('both biases stored', And(q.ret, Eq(q.this.bias_a, p.bias_a), Eq(q.this.bias_g, p.bias_g)))]


def clean_post(p, q):
    x, y = p.this.items, q.this.items
    old = lambda i: gt(p.t - x[i].timeStamp, p.threshold)
    d = x.n - y.n
    return [('entries are dropped from the front only', And(d >= 0, lambda: All(0, y.n, lambda i: Same(y[i], x[i + d])))),
            ('dropped entries are older than the tolerance', lambda: All(0, d, old)),
            ('the first entry kept is not', Imp(y.n > 0, lambda: Not(old(d)))), ('always succeeds', q.ret)]


def clean_inv(k):
    p = k.pre
    x = p.this.items
    d = lambda z: x.n - z.cur.this.items.n
    return [('a suffix remains', lambda z: And(d(z) >= 0, z.cur.this.items.n >= 0, lambda: All(0, z.cur.this.items.n, lambda i: Same(z.cur.this.items[i], x[i + d(z)])))),
            ('dropped are old', lambda z: All(0, d(z), lambda i: p.t - x[i].timeStamp > p.threshold))]


nonnull_items = lambda x: All(0, x.n, lambda i: nonnull(x[i]))

CONTRACTS = [
    Contract('AttitudeEstimate::Propagate', globals=GR, params=['accel', 'gyro', 't'], ensures=prop_post, gen=gens.atti_prop, unitfam=(IT + '.q_wb',),
             requires=lambda p: [('entries exist', nonnull_items(p.this.items)), ('gravity is not zero', norm(p.gravity) > R(1)),
                                 ('newest attitude is a unit quaternion', Imp(p.this.items.n > 0, lambda: unit(p.this.items[p.this.items.n - 1].q_wb)))],
             modifies=lambda p: [p.this.items, p.this.at('errInt')]),
    Contract('AttitudeEstimate::GetAttitude', params=['t', 'threshold', 'atti'], ensures=get_post, invariants=get_inv, gen=gens.atti_get, modular=True,
             requires=lambda p: [('entries in order of time', ordered(p.this.items))], modifies=lambda p: [p.at('atti')]),
    Contract('AttitudeEstimate::SetBias', params=['bias_a', 'bias_g'], ensures=bias_post, gen=gens.atti_bias, modular=True, modifies=lambda p: [p.this.at('bias_a'), p.this.at('bias_g')]),
    Contract('AttitudeEstimate::CleanOldItems', params=['t', 'threshold'], ensures=clean_post, invariants=clean_inv, gen=gens.atti_clean, modular=True,
             requires=lambda p: [('entries exist', nonnull_items(p.this.items))], modifies=lambda p: [p.this.items]),
]
NOTE = 'exact real arithmetic; Quaternion::FromTwoVectors of the library is trusted'
