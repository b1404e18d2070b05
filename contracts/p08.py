"""P08: midpoint integration of the IMU motion state."""
from .lib import *
from . import gens

IT = 'IMUPropagateQueueItem'


def mid_gyro(a, b, bg):
    return sub(scale(add(a.gyro, b.gyro), R(1) / 2), bg)


def mid_accel(a, b, ba):
    return sub(scale(add(a.accel, b.accel), R(1) / 2), ba)


def motion_post(s0, x0, x1, s1, ba, bg, g):
    """s1: state of entry x1 integrated from state s0 of entry x0"""
    dt = real(x1.timeStamp - x0.timeStamp)
    q1 = qunit(qmul(s0.q_wb, smallq(scale(mid_gyro(x0, x1, bg), dt))))
    a = scale(add(qrot(s0.q_wb, sub(x0.accel, ba)), qrot(q1, sub(x1.accel, ba))), R(1) / 2)
    v1 = add(s0.v_wb, scale(sub(a, g), dt))
    p1 = add(s0.p_wb, scale(add(s0.v_wb, s1.v_wb), dt / 2))
    return [('attitude advanced by the mean bias-corrected rate', Eq(s1.q_wb, q1)), ('attitude is of unit length', unit(s1.q_wb)),
            ('velocity advanced by the mean world acceleration minus gravity', Eq(s1.v_wb, v1, 2e-3)), ('position advanced by the mean velocity', Eq(s1.p_wb, p1, 2e-3))]


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


def motion_step(s0, x0, x1, s1, ba, bg, g):
    """the relation motion_post over the values it reads"""
    reads = lambda: [s0.p_wb, s0.v_wb, s0.q_wb, x0.accel, x0.gyro, x0.timeStamp, x1.accel, x1.gyro, x1.timeStamp, s1.p_wb, s1.v_wb, s1.q_wb, ba, bg, g]

    def rel(p0, v0, q0, a0, w0, t0, a1, w1, t1, p1, v1, q1, ba, bg, g):
        return And(*[f for _, f in motion_post(Rec(p_wb=p0, v_wb=v0, q_wb=q0), Rec(accel=a0, gyro=w0, timeStamp=t0), Rec(accel=a1, gyro=w1, timeStamp=t1), Rec(p_wb=p1, v_wb=v1, q_wb=q1), ba, bg, g)])
    return reads, rel


def post(p, q):
    a, b = p.item_0, p.item_1
    s0, s1 = a.nominalState, q.item_1.nominalState
    step = [] if spec.CONC else [('one integration step', Opq('motion step', *motion_step(s0, a, b, s1, p.ba, p.bg, p.g))), ('unit attitude', unit(s1.q_wb))]
    return (motion_post(s0, a, b, s1, p.ba, p.bg, p.g) if spec.CONC else step) + ([] if not spec.CONC else [
        ('mean bias-corrected rate passed on', Eq(q.midGyro, mid_gyro(a, b, p.bg))),
        ('mean bias-corrected acceleration passed on', Eq(q.midAccel, mid_accel(a, b, p.ba)))])


def passed_on(p, q):
    a, b = p.item_0, p.item_1
    return [(p.at('midGyro'), mid_gyro(a, b, p.bg)), (p.at('midAccel'), mid_accel(a, b, p.ba))]


def pre(p):
    return [('two entries', And(nonnull(p.item_0), nonnull(p.item_1), lambda: Not(Same(p.item_0, p.item_1))))]


CONTRACTS = [
    Contract('PropagateQueue::PropagateMotionNominalState', params=['item_0', 'item_1', 'ba', 'bg', 'g', 'midAccel', 'midGyro'], requires=pre, ensures=post, defs=passed_on, gen=gens.motion, modular=True, units=lambda p: [p.item_0.nominalState.q_wb],
             modifies=lambda p: [Heap(IT, 'nominalState', lambda r: Eq(r, p.item_1.ref))]),
]
NOTE = 'real arithmetic instead of single precision'
