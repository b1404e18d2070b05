from .lib import *
from . import p01, gens


def post(p, q):
    f, m = p.this.featMeas, p.this.imuMeas
    f1, m1 = q.this.featMeas, q.this.imuMeas
    out = q.m
    empty = Or(f.n == 0, m.n == 0)
    waits = Or(empty, lambda: m.last.timeStamp <= f[0].timeStamp)
    late = And(Not(waits), lambda: m[0].timeStamp >= f[0].timeStamp)
    go = And(Not(waits), lambda: m[0].timeStamp < f[0].timeStamp)
    kept = lambda: same_seq(m1, m)

    def packed():
        ft = f[0].timeStamp
        k = m.n - m1.n + 1          # number of samples up to the frame time
        o = out.imuMeas
        close = lambda: ft - m[k - 1].timeStamp <= D(1e-6)

        def interp():
            l, r = m[k - 1], m[k]
            mid = o[k]
            rate = (ft - l.timeStamp) / (r.timeStamp - l.timeStamp)
            lin = lambda a, b: add(scale(a, R(1) - rate), scale(b, rate))
            return And(o.n == k + 1, lambda: And(Eq(mid.timeStamp, ft), Same(m1[0], mid),
                                                 All(0, m.n, lambda i: Not(Same(m[i], mid))),
                                                 Eq(mid.gyro, lin(l.gyro, r.gyro)), Eq(mid.accel, lin(l.accel, r.accel))))
        return And(Same(out.featMeas, f[0]), popped(f1, f),
                   And(1 <= k, k < m.n),
                   lambda: All(0, m.n, lambda i: Iff(m[i].timeStamp <= ft, i < k)),
                   lambda: And(o.n >= k, lambda: All(0, k, lambda i: Same(o[i], m[i]))),
                   lambda: All(k, m.n, lambda i: Same(m1[i - k + 1], m[i])),
                   lambda: Cond(close, lambda: And(o.n == k, lambda: Same(m1[0], m[k - 1])), interp))
    return [('succeeds exactly when IMU data spans the frame', Iff(q.ret, go)),
            ('waiting consumes nothing', Imp(waits, lambda: And(same_seq(f1, f), kept))),
            ('a frame before all IMU data is discarded alone', Imp(late, lambda: And(popped(f1, f), kept))),
            ('nothing stale is delivered on failure', Imp(Not(go), lambda: And(null(out.featMeas), out.imuMeas.n == 0))),
            ('package covers the frame interval', Imp(go, packed)),
            ('order invariant', p01.inv(q.this))]


def invs(k):
    """the delivered list is a prefix of the buffered samples and the buffer is the rest"""
    p, c = k.pre, k.cur
    m, m1, o = p.this.imuMeas, c.this.imuMeas, c.m.imuMeas
    return [('delivered + buffered = original', lambda z: z.cur.m.imuMeas.n + z.cur.this.imuMeas.n == p.this.imuMeas.n),
            ('delivered is the prefix', lambda z: All(0, z.cur.m.imuMeas.n, lambda i: Same(z.cur.m.imuMeas[i], p.this.imuMeas[i]))),
            ('buffer is the suffix', lambda z: All(0, z.cur.this.imuMeas.n, lambda i: Same(z.cur.this.imuMeas[i], p.this.imuMeas[i + (p.this.imuMeas.n - z.cur.this.imuMeas.n)]))),
            ('delivered samples are not after the frame', lambda z: All(0, z.cur.m.imuMeas.n, lambda i: p.this.imuMeas[i].timeStamp <= p.this.featMeas[0].timeStamp)),
            ]


CONTRACTS = [
    Contract('DataLoader::PopPackedMessage', params=['m'], gen=gens.pop_packed, nanable=p01.NAN_FIELDS,
             requires=lambda p: [('output message given', nonnull(p.m)), ('order invariant', p01.inv(p.this))],
             ensures=post, invariants=invs,
             modifies=lambda p: [p.this.featMeas, p.this.imuMeas, Heap('CombinedMessage', None, lambda r: Eq(r, p.m.ref))]),
]
