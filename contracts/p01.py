"""P01-P03: the data loader's buffers."""
from .lib import *
from . import gens


def increasing(s):
    return All(0, s.n, lambda i: All(i + 1, s.n, lambda j: s[i].timeStamp < s[j].timeStamp))


def inv_stream(s, last):
    """no null message, strictly increasing times, newest buffered time covered by the newest accepted time"""
    return And(All(0, s.n, lambda i: And(nonnull(s[i]), Not(isnan(s[i].timeStamp)))),
               increasing(s),
               Imp(s.n > 0, lambda: And(Not(isnan(last)), lambda: s.last.timeStamp <= last)))


def inv(o):
    return And(inv_stream(o.featMeas, o.lastFeatTimeStamp), inv_stream(o.imuMeas, o.lastImuTimeStamp))


def fresh_msg(s, m):
    """the caller hands over a message object that is not in the buffer already"""
    return All(0, s.n, lambda i: Not(Same(s[i], m)))


def offset(o, t):
    return If(isnan(o.timeStampOffset), t, o.timeStampOffset)


def accepted(p, last, t):
    return Or(isnan(last), lambda: t > last)


def push_post(p, q, buf, last, strict):
    m = p.m
    off = offset(p.this, m.timeStamp)
    t = m.timeStamp - off
    pb, qb = p.this.get(buf), q.this.get(buf)
    pl, ql = p.this.get(last), q.this.get(last)
    acc = accepted(p, pl, t)
    good = (m.ids.n == m.observes.n) if strict else True
    out = [
        ('the common time shift is fixed', Imp(good, lambda: Same(q.this.timeStampOffset, off))),
        ('buffered messages stay in place', And(lambda: qb.n >= pb.n, lambda: All(0, pb.n, lambda i: Same(qb[i], pb[i])))),
        ('accepted exactly when newer than everything accepted before', Imp(good, lambda: Cond(acc,
            lambda: And(lambda: qb.n == pb.n + 1, lambda: Same(qb.last, m), lambda: Same(qb.last.timeStamp, t), lambda: Same(ql, t)),
            lambda: And(lambda: qb.n == pb.n, lambda: Same(ql, pl))))),
        ('newest accepted time never decreases', Imp(Not(isnan(pl)), lambda: And(Not(isnan(ql)), lambda: ql >= pl))),
        ('accepted message reported', Imp(And(good, acc), lambda: q.ret)),
        ('order invariant', inv(q.this)),
    ]
    if strict:
        out.append(('inconsistent lists are refused', Imp(Not(good), lambda: And(Not(q.ret), lambda: qb.n == pb.n, lambda: Same(ql, pl),
                                                        lambda: Same(q.this.timeStampOffset, p.this.timeStampOffset), lambda: Same(m.inp(q.this).timeStamp, m.timeStamp)))))
    return out


NAN_FIELDS = ('this.lastFeatTimeStamp', 'this.lastImuTimeStamp', 'this.timeStampOffset')


def push(fn, buf, last, cls, strict):
    return Contract(
        'DataLoader::' + fn, params=['m'], nanable=NAN_FIELDS, gen=gens.push_feat if strict else gens.push_imu,
        requires=lambda p: [('message given', nonnull(p.m)), ('message not buffered yet', fresh_msg(p.this.get(buf), p.m)),
                            ('message time is a number', Not(isnan(p.m.timeStamp))), ('order invariant', inv(p.this))],
        ensures=lambda p, q: push_post(p, q, buf, last, strict),
        modifies=lambda p: [p.this.get(buf), p.this.at(last), p.this.at('timeStampOffset'), Heap(cls, 'timeStamp', lambda r: Eq(r, p.m.ref))])


def clear_post(p, q):
    return [('buffers empty', And(lambda: q.this.featMeas.n == 0, lambda: q.this.imuMeas.n == 0)),
            ('nothing accepted yet', And(isnan(q.this.lastFeatTimeStamp), isnan(q.this.lastImuTimeStamp))),
            ('order invariant', inv(q.this))]


CONTRACTS = [
    push('PushIMUMessage', 'imuMeas', 'lastImuTimeStamp', 'IMUMessage', False),
    push('PushFeaturesMessage', 'featMeas', 'lastFeatTimeStamp', 'FeaturesMessage', True),
    Contract('DataLoader::Clear', nanable=NAN_FIELDS, gen=gens.clear, ensures=clear_post,
             modifies=lambda p: [p.this.featMeas, p.this.imuMeas, p.this.at('timeStampOffset'), p.this.at('lastFeatTimeStamp'), p.this.at('lastImuTimeStamp')]),
]
