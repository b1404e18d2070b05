"""P06: key frames and the choice of the frame to drop."""
from .lib import *
from .p04 import wf_feature, final, U32
from .p05 import wf_window, in_window
from . import gens


def seen0(f, fr):
    """feature f has a measurement of the first camera in frame fr"""
    return And(f.firstFrameID <= fr, lambda: fr <= final(f), lambda: f.observes[fr - f.firstFrameID].norms.has(0))


def wf_frames(fr):
    """the features known to the frames of the window are well formed"""
    return All(0, fr.n, lambda i: AllKeys(fr[i].features, lambda k: Imp(fr[i].features.has(k), lambda: And(nonnull(fr[i].features[k]), lambda: wf_feature(fr[i].features[k])))))


def shared(f, pre):
    """a feature seen by the first camera in frame f and in its predecessor"""
    return lambda k: And(pre.features.has(k), lambda: seen0(f.features[k], f.id), lambda: seen0(pre.features[k], pre.id))


def common(f, pre):
    return Count(f.features, shared(f, pre), 'shared')


def index(fr, f):
    return f.id - fr[0].id


def key_rule(m, f):
    """the stated rule for a frame f of the window of m"""
    fr = m.frames
    i = index(fr, f)
    pre = lambda: fr[i - 1]
    return Or(Eq(i, 0), lambda: common(f, pre()).total < m.minKeyframeTrackedFeatureNum,
              lambda: gt(norm(sub(f.p_wb, pre().p_wb)), m.maxKeyframeTranslation))


def key_post(p, q):
    return [('no key frame without a frame', Imp(null(p.f), lambda: Not(q.ret))),
            ('key frame exactly by the configured thresholds', Imp(nonnull(p.f), lambda: Iff(q.ret, key_rule(p.this, p.f))))]


def find_inv(k):
    p = k.pre
    fr = p.this.frames
    out = [('not among the frames passed', lambda z: And(z.n <= fr.n, lambda: All(fr.n - z.n, fr.n, lambda i: Not(Same(fr[i], p.f)))))]
    i = index(fr, p.f)
    its = k.map_iters()
    for v in k.locals('int'):
        out.append(('shared features counted', lambda z, v=v: And(i >= 1, lambda: Eq(z.now(v), common(p.f, fr[i - 1]).upto(z.n)))))
    return out


def needmarg_post(p, q):
    return [('exactly when there are more frames than configured', Iff(q.ret, p.this.frames.n > p.this.maxWindowSize))]


def covis_post(p, q):
    a, b, l = p.this.features, p.target.features, q.ret
    return [('each reported feature is shared', All(0, l.n, lambda i: And(nonnull(l[i]), lambda: And(a.has(l[i].id), b.has(l[i].id), lambda: Same(a[l[i].id], l[i]))))),
            ('each shared feature is reported', AllKeys(a, lambda k: Imp(And(a.has(k), lambda: b.has(k)), lambda: Ex(0, l.n, lambda i: Same(l[i], a[k]))))),
            ('none is reported twice', All(0, l.n, lambda i: All(0, i, lambda j: Not(Same(l[i], l[j])))))]


def covis_inv(k):
    p = k.pre
    a, b = p.this.features, p.target.features
    out = []
    for en, pos in k.map_iters():
        for v in k.locals('vector'):
            out.append(('reported are shared and visited', lambda z, v=v: (lambda l: All(0, l.n, lambda i: And(nonnull(l[i]), lambda: And(a.has(l[i].id), b.has(l[i].id), en.rk(zi(l[i].id)) < pos(), lambda: Same(a[l[i].id], l[i])))))(z.now(v))))
            out.append(('visited shared ones are reported', lambda z, v=v: (lambda l: AllKeys(a, lambda k: Imp(And(a.has(k), lambda: b.has(k), lambda: en.rk(zi(k)) < pos()), lambda: Ex(0, l.n, lambda i: Same(l[i], a[k])))))(z.now(v))))
            out.append(('reported once', lambda z, v=v: (lambda l: All(0, l.n, lambda i: All(0, i, lambda j: Not(Same(l[i], l[j])))))(z.now(v))))
    return out




def marg_post(p, q):
    m = p.this.frameManager
    full = m.frames.n > m.maxWindowSize
    sub_ = lambda: m.frames[m.frames.n - 2]
    return [('always decides', q.ret),
            ('nothing is dropped while the window is not full', Imp(Not(full), lambda: Eq(q.this.margPolicy, ENUM['NO_MARG']))),
            ('a full window drops the oldest frame when the second newest is a key frame, else the second newest', Imp(full, lambda: Eq(q.this.margPolicy, If(key_rule(m, sub_()), ENUM['MARG_OLDEST'], ENUM['MARG_SUBNEW']))))]


ENUM = dict(MARG_OLDEST=1, MARG_NEWEST=2, MARG_SUBNEW=3, NO_MARG=4)

CONTRACTS = [
    Contract('FrameManager::NeedMarginalize', ensures=needmarg_post, gen=gens.fm_plain, modifies=lambda p: []),
    Contract('FrameManager::IsKeyFrame', params=['f'], gen=gens.key_frame, ensures=key_post, invariants=find_inv, modular=True,
             requires=lambda p: [('window numbered consecutively', wf_window(p.this.frames)), ('the frame is in the window', Imp(nonnull(p.f), lambda: in_window(p.this.frames, p.f))),
                                 ('features are well formed', wf_frames(p.this.frames))], modifies=lambda p: []),
    Contract('Frame::GetCovisibleFeatures', params=['target'], gen=gens.covisible, ensures=covis_post, invariants=covis_inv,
             requires=lambda p: [('target given', nonnull(p.target)), ('features are stored under their number', AllKeys(p.this.features, lambda k: Imp(p.this.features.has(k), lambda: And(nonnull(p.this.features[k]), lambda: Eq(p.this.features[k].id, k)))))],
             modifies=lambda p: []),
    Contract('MultiViewVisionUpdate::DecideMargPolicy', gen=gens.decide_marg, ensures=marg_post, setup=wire(('this.frameManager', 'fm', 'FrameManager')),
             requires=lambda p: [('window numbered consecutively', wf_window(p.this.frameManager.frames)), ('features are well formed', wf_frames(p.this.frameManager.frames)), ('window size configured', p.this.frameManager.maxWindowSize >= 1)],
             modifies=lambda p: [p.this.at('margPolicy')]),
]
