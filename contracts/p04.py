"""P04: observations stored in the feature records."""
from .lib import *
from . import gens

U32 = 1 << 32


def size(o):
    """number of measurements of an observation"""
    return o.norms.n


def wf_feature(f, key=None):
    """a stored feature: at least one observation slot, none of them null, frame numbers in range"""
    return And(f.observes.n >= 1, lambda: All(0, f.observes.n, lambda i: nonnull(f.observes[i])),
               lambda: f.firstFrameID + f.observes.n < U32, True if key is None else lambda: Eq(f.id, key))


def wf_features(m):
    return AllKeys(m, lambda k: Imp(m.has(k), lambda: And(nonnull(m[k]), lambda: wf_feature(m[k], k))))


def final(f):
    return f.firstFrameID + f.observes.n - 1


# ---------------------------------------------------------------- single observations
def obs_getnorm_post(p, q):
    h = p.this.norms.has(p.cam)
    return [('found exactly when the camera has a measurement', Iff(q.ret, h)),
            ('the stored measurement is returned', Imp(h, lambda: Same(q.norm, p.this.norms[p.cam])))]


def getnorm_post(p, q):
    f = p.this
    inside = And(f.firstFrameID <= p.frame, lambda: p.frame <= final(f))
    idx = p.frame - f.firstFrameID
    have = And(inside, lambda: f.observes[idx].norms.has(p.cam))
    return [('found exactly when that frame and camera reported the feature', Iff(q.ret, have)),
            ('the stored measurement is returned', Imp(have, lambda: Same(q.norm, f.observes[idx].norms[p.cam])))]


def final_post(p, q):
    return [('number of the last frame with an observation slot', Eq(q.ret, final(p.this)))]


def addobs_post(p, q):
    f, g, o = p.this, q.this, p.obs
    empty = Eq(size(o), 0)
    return [('an observation without measurement is ignored', Imp(empty, lambda: And(same_seq(g.observes, f.observes), Eq(g.observeNum, f.observeNum)))),
            ('the observation is appended', Imp(Not(empty), lambda: And(Eq(g.observes.n, f.observes.n + 1), lambda: All(0, f.observes.n, lambda i: Same(g.observes[i], f.observes[i])),
                                                                      lambda: Same(g.observes.last, o)))),
            ('its measurements are counted', Imp(Not(empty), lambda: Eq(g.observeNum, f.observeNum + size(o))))]


# ---------------------------------------------------------------- a tracking message
def real_obs(p, i):
    return size(p.obs[i]) > 0


def first_report(p, i):
    """entry i of the message carries measurements and is the first such entry of its feature"""
    return And(real_obs(p, i), lambda: All(0, i, lambda j: Or(Not(Eq(p.ids[j], p.ids[i])), lambda: Not(real_obs(p, j)))))


def reported(p, k, n):
    return Ex(0, n, lambda j: And(Eq(p.ids[j], k), lambda: real_obs(p, j)))


def old_part(p, q, k):
    """earlier observations of a known feature stay, gaps are filled with observations without measurement"""
    f, g = p.this.features[k], q.this.features[k]
    return And(Same(g, f), lambda: Eq(g.firstFrameID, f.firstFrameID), lambda: g.observes.n >= f.observes.n,
               lambda: All(0, f.observes.n, lambda i: Same(g.observes[i], f.observes[i])),
               lambda: All(f.observes.n, g.observes.n, lambda i: Or(Eq(g.firstFrameID + i, p.frame), lambda: Eq(size(g.observes[i]), 0))))


def state(p, q, n):
    """effect of the first n entries of the message"""
    a, b = p.this.features, q.this.features
    return [
        ('known features are those known before or reported', AllKeys([a, b], lambda k: Iff(b.has(k), Or(a.has(k), reported(p, k, n))))),
        ('stored features are well formed', AllKeys(b, lambda k: Imp(b.has(k), lambda: And(nonnull(b[k]), lambda: wf_feature(b[k], k), lambda: final(b[k]) <= p.frame)))),
        ('earlier observations stay attributed to their frames', AllKeys(a, lambda k: Imp(a.has(k), lambda: old_part(p, q, k)))),
        ('features without a report do not change', AllKeys(a, lambda k: Imp(And(a.has(k), lambda: Not(reported(p, k, n))),
                                                      lambda: And(Eq(b[k].observes.n, a[k].observes.n), lambda: Eq(b[k].observeNum, a[k].observeNum))))),
        ('a feature already seen in this frame keeps that observation', AllKeys(a, lambda k: Imp(And(a.has(k), lambda: final(a[k]) >= p.frame),
                                                      lambda: And(Eq(b[k].observes.n, a[k].observes.n), lambda: Eq(b[k].observeNum, a[k].observeNum))))),
        ('a report becomes the observation of the new frame', All(0, n, lambda i: Imp(And(first_report(p, i), lambda: Or(Not(a.has(p.ids[i])), lambda: final(a[p.ids[i]]) < p.frame)),
                                                      lambda: And(b.has(p.ids[i]), lambda: Same(b[p.ids[i]].observes.last, p.obs[i]), lambda: Eq(final(b[p.ids[i]]), p.frame))))),
        ('measurements of a known feature are counted', All(0, n, lambda i: Imp(And(first_report(p, i), lambda: a.has(p.ids[i]), lambda: final(a[p.ids[i]]) < p.frame),
                                                      lambda: Eq(b[p.ids[i]].observeNum, a[p.ids[i]].observeNum + size(p.obs[i]))))),
        ('new records are new objects of this frame', AllKeys([a, b], lambda k: Imp(And(b.has(k), lambda: Not(a.has(k))), lambda: And(Fresh(p, b[k]), lambda: Eq(final(b[k]), p.frame), lambda: Eq(b[k].observes.n, 1))))),
        ('a new feature starts in this frame', All(0, n, lambda i: Imp(And(first_report(p, i), lambda: Not(a.has(p.ids[i]))),
                                                      lambda: And(Eq(b[p.ids[i]].firstFrameID, p.frame), lambda: Eq(b[p.ids[i]].observes.n, 1), lambda: Eq(b[p.ids[i]].observeNum, size(p.obs[i])))))),
    ]


def add_pre(p):
    a = p.this.features
    return [('feature records are well formed', wf_features(a)),
            ('no observation is later than the new frame', AllKeys(a, lambda k: Imp(a.has(k), lambda: final(a[k]) <= p.frame))),
            ('frame number in range', p.frame < U32 - 2),
            ('measurements fit the counters', And(AllKeys(a, lambda k: Imp(a.has(k), lambda: a[k].observeNum < (1 << 31))), All(0, p.obs.n, lambda i: Imp(nonnull(p.obs[i]), lambda: size(p.obs[i]) < (1 << 30))))),
            ('observations given', All(0, p.obs.n, lambda i: nonnull(p.obs[i])))]


def add_post(p, q):
    a, b = p.this.features, q.this.features
    good = Eq(p.ids.n, p.obs.n)
    return [('refused exactly when the lists differ in length', Iff(q.ret, good)),
            ('a refused message changes nothing', Imp(Not(good), lambda: And(Eq(q.changed.n, 0), AllKeys([a, b], lambda k: And(Iff(a.has(k), b.has(k)),
                lambda: Imp(a.has(k), lambda: And(Same(a[k], b[k]), lambda: Eq(a[k].observes.n, b[k].observes.n), lambda: Eq(a[k].observeNum, b[k].observeNum))))))))] + \
        [(nm, Imp(good, lambda f=f: f)) for nm, f in state(p, q, p.ids.n)] + \
        [('features that got an observation are reported back', Imp(good, lambda: changed(p, q, p.ids.n)))]


def changed(p, q, n):
    return All(0, q.changed.n, lambda i: And(nonnull(q.changed[i]), lambda: And(q.this.features.has(q.changed[i].id), lambda: Same(q.this.features[q.changed[i].id], q.changed[i])),
                                             lambda: Eq(final(q.changed[i]), p.frame)))


def stored(p, r):
    """the object r is a record of the manager"""
    o = ObjAt(p, 'Feature', r)
    return And(p.this.features.has(o.id), lambda: Eq(p.this.features[o.id].ref, r))


def add_inv(k):
    p = k.pre
    out = []
    if k.depth == 1:
        for i, (nm, f) in enumerate(state(p, k.cur, 0)):
            out.append((nm, lambda z, i=i: state(p, z.cur, z.n)[i][1]))
        out.append(('changed features', lambda z: changed(p, z.cur, z.n)))
    else:
        # gap filling: slots added to a list of observations hold no measurement
        for loc, now, then in k.seqs('Feature', 'observes'):
            out.append(('added slots are empty', lambda z, loc=loc, then=then: (lambda s: And(s.n >= then.n, lambda: All(then.n, s.n, lambda i: And(nonnull(s[i]), lambda: Eq(size(s[i]), 0)))))(z.now(loc))))
    return out


CONTRACTS = [
    Contract('FeatureObserve::GetNorm', params=['cam', 'norm'], ensures=obs_getnorm_post, modifies=lambda p: [p.at('norm')], gen=gens.obs_getnorm),
    Contract('Feature::GetNorm', params=['frame', 'cam', 'norm'], requires=lambda p: [('well formed feature', wf_feature(p.this))],
             ensures=getnorm_post, modifies=lambda p: [p.at('norm')], gen=gens.feat_getnorm),
    Contract('Feature::FinalFrameID', requires=lambda p: [('well formed feature', wf_feature(p.this))], ensures=final_post, modifies=lambda p: [], gen=gens.feat_getnorm),
    Contract('Feature::AddNewObserve', params=['obs'], requires=lambda p: [('observation given', nonnull(p.obs)), ('counter in range', And(p.this.observeNum < (1 << 31), lambda: size(p.obs) < (1 << 30)))],
             ensures=addobs_post, modifies=lambda p: [p.this.observes, p.this.at('observeNum')], gen=gens.add_obs),
    Contract('FeatureManager::AddNewFeatures', params=['ids', 'obs', 'frame', 'changed'], requires=add_pre, ensures=add_post, invariants=add_inv,
             modifies=lambda p: [p.this.features, p.at('changed'), Heap('Feature', 'observes', lambda r: stored(p, r)), Heap('Feature', 'observeNum', lambda r: stored(p, r))], gen=gens.add_features),
]

