from .lib import *
from . import p01, gens


def post(p, q):
    f, m = p.this.featMeas, p.this.imuMeas
    f1, m1 = q.this.featMeas, q.this.imuMeas
    out = q.m
    hasf, hasm = f.n > 0, m.n > 0
    nofeat = lambda: And(null(out.featMeas), same_seq(f1, f))
    noimu = lambda: And(out.imuMeas.n == 0, lambda: same_seq(m1, m))
    feat = lambda: And(Same(out.featMeas, f[0]), popped(f1, f))
    imu = lambda: And(out.imuMeas.n == 1, lambda: Same(out.imuMeas[0], m[0]), lambda: popped(m1, m))
    both = lambda: Cond(f[0].timeStamp <= m[0].timeStamp,
                        lambda: And(feat, Cond(lambda: absv(f[0].timeStamp - m[0].timeStamp) < p.this.imuPeriod, imu, noimu)),
                        lambda: And(nofeat, imu))
    return [('an output message is returned', nonnull(out)),
            ('fails exactly when both buffers are empty', Iff(q.ret, Or(hasf, hasm))),
            ('both streams waiting: earliest first', Imp(And(hasf, hasm), both)),
            ('only IMU waiting', Imp(And(Not(hasf), hasm), lambda: And(nofeat, imu))),
            ('only features waiting', Imp(And(hasf, Not(hasm)), lambda: And(feat, noimu))),
            ('nothing waiting', Imp(And(Not(hasf), Not(hasm)), lambda: And(nofeat, noimu))),
            ('order invariant', p01.inv(q.this))]


CONTRACTS = [
    Contract('DataLoader::PopOneMessage', params=['m'], gen=gens.pop_one, nanable=p01.NAN_FIELDS,
             requires=lambda p: [('order invariant', p01.inv(p.this))],
             ensures=post,
             modifies=lambda p: [p.at('m'), p.this.featMeas, p.this.imuMeas, Heap('CombinedMessage', None, lambda r: Eq(r, p.m.ref))]),
]
