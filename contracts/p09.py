"""P09: propagation of the error-state covariance."""
from .lib import *
from . import gens

IT = 'IMUPropagateQueueItem'
IP, IV, IR, IBA, IBG = 0, 3, 6, 9, 12      # order of the error state: position, velocity, attitude, biases
NA, NG, NWA, NWG = 0, 3, 6, 9              # order of the noise: accelerometer, gyroscope, random walks


def put(n, m, base, blocks):
    """n x m matrix equal to base (a function) except for the given 3 x 3 blocks"""
    def el(i, j):
        for r, c, b in blocks:
            if r <= i < r + 3 and c <= j < c + 3:
                return b.get(i - r, j - c)
        return base(i, j)
    return mat(n, m, [el(i, j) for i in range(n) for j in range(m)])


def model_F(R0, a, w, dt):
    """first-order error dynamics of the motion model: dp' = dp + dv dt, dv' = dv - R [a] dt dtheta - R dt dba,
    dtheta' = (I - [w] dt) dtheta - dt dbg, biases constant"""
    I = eye(3)
    Idt = scale(I, dt)
    return put(15, 15, lambda i, j: R(1 if i == j else 0), [
        (IP, IV, Idt), (IV, IR, scale(mul(R0, skew(a)), -dt)), (IV, IBA, scale(R0, -dt)),
        (IR, IR, sub(I, scale(skew(w), dt))), (IR, IBG, scale(I, -dt))])


def model_G(R0, dt):
    I = eye(3)
    Idt = scale(I, dt)
    return put(15, 12, lambda i, j: R(0), [
        (IP, NA, scale(R0, dt * dt / 2)), (IV, NA, scale(R0, dt)), (IR, NG, Idt), (IBA, NWA, Idt), (IBG, NWG, Idt)])


def unwritten(th):
    """entries of F and G that no propagation step writes"""
    f, g = th.F, th.G
    return [('constant part of F', And(*[Eq(f.get(i, j), R(1 if i == j else 0)) for i in range(15) for j in range(15) if not wF(i, j)])),
            ('constant part of G', And(*[Eq(g.get(i, j), R(0)) for i in range(15) for j in range(12) if not wG(i, j)]))]


# entries that a propagation step writes
wF = lambda i, j: (i < 3 and 3 <= j < 6) or (3 <= i < 6 and 6 <= j < 12) or (6 <= i < 9 and (6 <= j < 9 or j >= 12))
wG = lambda i, j: j < 3 and i < 6 or (6 <= i < 9 and 3 <= j < 6) or (9 <= i < 12 and 6 <= j < 9) or (i >= 12 and j >= 9)


def cov_step(a, b, P0, B0, P1, B1, ma, mg, Qn):
    """covariances of entry b propagated from entry a with the linearised dynamics of the interval"""
    reads = lambda: [a.nominalState.q_wb, a.timeStamp, b.timeStamp, P0, B0, P1, B1, ma, mg, Qn]

    def rel(q0, t0, t1, P0, B0, P1, B1, ma, mg, Qn):
        dt = real(t1 - t0)
        R0 = rotm(q0)
        F_, G_ = model_F(R0, ma, mg, dt), model_G(R0, dt)
        return And(Eq(P1, add(mul(F_, P0, tr(F_)), mul(G_, Qn, tr(G_))), 1e-3), Eq(B1, mul(F_, B0), 1e-3))
    return reads, rel


def cov_post(p, q):
    a, b = p.item_0, q.item_1
    dt = real(b.timeStamp - a.timeStamp)
    R0 = rotm(a.nominalState.q_wb)
    F_, G_ = model_F(R0, p.midAccel, p.midGyro, dt), model_G(R0, dt)
    if not spec.CONC:
        return [('F is the linearised error dynamics', Eq(q.this.F, F_)), ('G distributes the noise', Eq(q.this.G, G_)),
                ('covariances become F P F^T + G Q G^T and F B', Opq('covariance step', *cov_step(a, b, a.imuCov, a.imuExCamCov, b.imuCov, b.imuExCamCov, p.midAccel, p.midGyro, p.this.Q)))]
    return [('F is the linearised error dynamics', Eq(q.this.F, F_)), ('G distributes the noise', Eq(q.this.G, G_)),
            ('IMU covariance becomes F P F^T + G Q G^T', Eq(b.imuCov, add(mul(q.this.F, a.imuCov, tr(q.this.F)), mul(q.this.G, p.this.Q, tr(q.this.G))), 1e-3)),
            ] + ([('cross covariance becomes F B', Eq(b.imuExCamCov, mul(q.this.F, a.imuExCamCov), 1e-3))] if spec.CONC else [])


def constants(p):
    def el(m, i, j, w, c):
        return m.get(i, j) if w(i, j) else R(c)
    f, g = p.this.F, p.this.G
    return [(p.this.at('F'), mat(15, 15, [el(f, i, j, wF, 1 if i == j else 0) for i in range(15) for j in range(15)])),
            (p.this.at('G'), mat(15, 12, [el(g, i, j, wG, 0) for i in range(15) for j in range(12)]))]


def cross(p, q):
    return [(p.item_1.at('imuExCamCov'), mul(q.this.F, p.item_0.imuExCamCov))]


def noise_post(p, q):
    d = [p.na] * 3 + [p.ng] * 3 + [p.nwa] * 3 + [p.nwg] * 3
    return [('noise strengths on the diagonal', Eq(q.this.Q, mat(12, 12, [d[i] if i == j else R(0) for i in range(12) for j in range(12)])))]


def reset_post(p, q):
    return [('F is the identity', Eq(q.this.F, eye(15))), ('G is zero', Eq(q.this.G, zeros(15, 12)))]


CONTRACTS = [
    Contract('PropagateQueue::PropagateFullErrorStateCovariance', params=['item_0', 'item_1', 'midAccel', 'midGyro'], ensures=cov_post, defs=cross, gen=gens.covprop, modular=True, rewrites=constants,
             requires=lambda p: [('two entries', And(nonnull(p.item_0), nonnull(p.item_1), lambda: Not(Same(p.item_0, p.item_1))))] + unwritten(p.this),
             modifies=lambda p: [p.this.at('F'), p.this.at('G'), Heap(IT, 'imuCov', lambda r: Eq(r, p.item_1.ref))]),
    Contract('PropagateQueue::InitializeProcessNoiseMatrix', params=['na', 'ng', 'nwa', 'nwg'], ensures=noise_post, gen=gens.noise, modifies=lambda p: [p.this.at('Q')]),
    Contract('PropagateQueue::ResetProcessFunction', ensures=reset_post, gen=lambda G: gens.queue(G), modular=True, modifies=lambda p: [p.this.at('F'), p.this.at('G')]),
]
