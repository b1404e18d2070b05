"""P05: the sliding window of frames, and removing a frame's observations."""
from .lib import *
from .p04 import wf_feature, size, final, U32
from . import gens


def wf_window(fr):
    """frames are numbered consecutively"""
    return And(All(0, fr.n, lambda i: nonnull(fr[i])), lambda: All(0, fr.n, lambda i: Eq(fr[i].id, fr[0].id + i)),
               lambda: Imp(fr.n > 0, lambda: And(fr[0].id >= 1, lambda: fr[0].id + fr.n < U32 - 1)))


def in_window(fr, r):
    return Ex(0, fr.n, lambda i: Same(fr[i], r))


def pose_same(a, b):
    return And(Eq(a.q_wb, b.q_wb), Eq(a.p_wb, b.p_wb), Eq(a.v_wb, b.v_wb))


# ---------------------------------------------------------------- frames
def frame_init_post(p, q):
    f = q.this
    return [('always succeeds', q.ret), ('number and time are set', And(Eq(f.id, p.fid), Eq(f.timeStamp, p.t))),
            ('identity pose at rest', And(Eq(f.q_wb, quat(1, 0, 0, 0)), Eq(f.p_wb, zeros(3, 1)), Eq(f.v_wb, zeros(3, 1)))),
            ('no feature', AllKeys(f.features, lambda k: Not(f.features.has(k))))]


def add_feature_post(p, q):
    a, b, k = p.this.features, q.this.features, p.f.id
    return [('always succeeds', q.ret),
            ('the feature is known afterwards', And(b.has(k), lambda: Imp(Not(a.has(k)), lambda: Same(b[k], p.f)))),
            ('other entries stay', AllKeys([a, b], lambda j: And(Imp(a.has(j), lambda: And(b.has(j), lambda: Same(b[j], a[j]))), Imp(And(b.has(j), Not(Eq(j, k))), lambda: a.has(j)))))]


def add_features_state(p, q, n):
    a, b, l = p.this.features, q.this.features, p.fs
    named = lambda j, m: Ex(0, m, lambda i: Eq(l[i].id, j))
    return [('exactly the given features are added', AllKeys([a, b], lambda j: Iff(b.has(j), Or(a.has(j), named(j, n))))),
            ('entries present before stay', AllKeys(a, lambda j: Imp(a.has(j), lambda: Same(b[j], a[j])))),
            ('each new entry is one of the given features', AllKeys(b, lambda j: Imp(And(b.has(j), lambda: Not(a.has(j))), lambda: Ex(0, n, lambda i: And(Eq(l[i].id, j), lambda: Same(b[j], l[i]))))))]


def new_frame_post(p, q):
    a, b, f = p.this.frames, q.this.frames, q.f
    first = Eq(a.n, 0)
    return [('accepted', q.ret),
            ('the frame is appended', And(Eq(b.n, a.n + 1), lambda: Same(b.last, p.f), lambda: All(0, a.n, lambda i: Same(b[i], a[i])))),
            ('numbered consecutively', And(wf_window(b))),
            ('earlier frames keep number and pose', All(0, a.n, lambda i: And(Eq(b[i].id, a[i].id), pose_same(b[i], a[i]), Eq(b[i].timeStamp, a[i].timeStamp)))),
            ('the first frame gets number one and the identity pose', Imp(first, lambda: And(Eq(f.id, 1), Eq(f.q_wb, quat(1, 0, 0, 0)), Eq(f.p_wb, zeros(3, 1)), Eq(f.v_wb, zeros(3, 1))))),
            ('later frames start from the pose of their predecessor', Imp(Not(first), lambda: pose_same(f, a.last))),
            ('the time stays', Eq(f.timeStamp, p.f.timeStamp))]


def remove_post(p, q):
    a, b, k = p.this.frames, q.this.frames, p.idx
    bad = k >= a.n
    return [('refused exactly when there is no such frame', Iff(q.ret, Not(bad))),
            ('a refused removal changes nothing', Imp(bad, lambda: And(same_seq(b, a), lambda: All(0, a.n, lambda i: Eq(b[i].id, a[i].id))))),
            ('exactly that frame is dropped', Imp(Not(bad), lambda: And(Eq(b.n, a.n - 1), lambda: All(0, b.n, lambda i: Same(b[i], a[If(i < k, i, i + 1)]))))),
            ('the numbering gap is closed', Imp(Not(bad), lambda: wf_window(b))),
            ('frames before the dropped one keep their number', Imp(And(Not(bad), k > 0), lambda: Eq(b[0].id, a[0].id))),
            ('after dropping the oldest the others keep their number', Imp(And(Not(bad), Eq(k, 0)), lambda: All(0, b.n, lambda i: Eq(b[i].id, a[i + 1].id)))),
            ]


def remove_inv(k):
    p = k.pre
    a = p.this.frames
    return [('renumbered so far', lambda z: All(0, a.n, lambda i: Eq(z.cur.this.frames[i].id, If(And(i >= p.idx, i < p.idx + z.n), a[i].id - 1, a[i].id))))]


def get_frame_post(p, q):
    a = p.this.frames
    has = And(a.n > 0, lambda: p.fid >= a[0].id, lambda: p.fid < a[0].id + a.n)
    return [('found exactly when the window holds that number', Iff(Not(q.ret.null), has)),
            ('the frame with that number is returned', Imp(has, lambda: Same(q.ret, a[p.fid - a[0].id])))]


def max_id_post(p, q):
    a = p.this.frames
    return [('number of the newest frame, zero for an empty window', Cond(a.n > 0, lambda: Eq(q.ret, a.last.id), lambda: Eq(q.ret, 0)))]


# ---------------------------------------------------------------- observations of a removed frame
def holds(f, fr):
    """feature f has an observation slot for frame fr"""
    return And(f.firstFrameID <= fr, lambda: fr <= final(f))


def slot(f, fr):
    return f.observes[fr - f.firstFrameID]


def touched(p, f):
    return holds(f, p.frame) if p.offset is True else Cond(p.offset, lambda: holds(f, p.frame), lambda: Eq(f.firstFrameID, p.frame))


def dies(p, f):
    """no measurement is left without the removed frame"""
    return And(holds(f, p.frame), lambda: Eq(size(slot(f, p.frame)), f.observeNum))


def shrunk(p, f, g):
    """g is f without the slot of the removed frame"""
    k = p.frame - f.firstFrameID
    return And(Eq(g.observes.n, f.observes.n - 1), lambda: All(0, k, lambda i: Same(g.observes[i], f.observes[i])),
               lambda: All(k, g.observes.n, lambda i: Same(g.observes[i], f.observes[i + 1])),
               lambda: Eq(g.observeNum, f.observeNum - size(slot(f, p.frame))))


def kept(f, g):
    return And(Eq(g.observes.n, f.observes.n), lambda: All(0, f.observes.n, lambda i: Same(g.observes[i], f.observes[i])), lambda: Eq(g.observeNum, f.observeNum))


def first_after(p, f):
    """number of the first frame of f after the removal"""
    return Cond2(p.offset, If(f.firstFrameID > p.frame, f.firstFrameID - 1, f.firstFrameID),
                 If(Eq(f.firstFrameID, p.frame), f.firstFrameID + 1, f.firstFrameID))


def Cond2(c, a, b):
    return If(c, a, b)


def after(p, f, g):
    return And(Same(g, f), lambda: Eq(g.firstFrameID, first_after(p, f)), lambda: Eq(g.id, f.id),
               lambda: Cond(holds(f, p.frame), lambda: shrunk(p, f, g), lambda: kept(f, g)))


def unchanged(f, g):
    return And(Same(g, f), lambda: Eq(g.firstFrameID, f.firstFrameID), lambda: kept(f, g))


def counted(f):
    """observeNum counts the stored measurements (consequences used here)"""
    return And(f.observeNum >= 1, lambda: All(0, f.observes.n, lambda i: size(f.observes[i]) <= f.observeNum),
               lambda: Imp(Eq(f.observes.n, 1), lambda: Eq(size(f.observes[0]), f.observeNum)))


def rbf_pre(p):
    a = p.this.features
    return [('feature records are well formed', AllKeys(a, lambda k: Imp(a.has(k), lambda: And(nonnull(a[k]), lambda: wf_feature(a[k], k), lambda: counted(a[k]))))),
            ('without renumbering the removed frame is the oldest', Imp(Not(p.offset), lambda: AllKeys(a, lambda k: Imp(a.has(k), lambda: a[k].firstFrameID >= p.frame)))),
            ('frame numbers start at one', And(p.frame >= 1, p.frame < U32 - 2))]


def rbf_post(p, q):
    a, b = p.this.features, q.this.features
    return [('exactly the features without remaining observation are deleted', AllKeys([a, b], lambda k: Iff(b.has(k), And(a.has(k), lambda: Not(dies(p, a[k])))))),
            ('the others lose exactly the observation of that frame', AllKeys(a, lambda k: Imp(And(a.has(k), lambda: Not(dies(p, a[k]))), lambda: after(p, a[k], b[k]))))]


def rbf_inv(k):
    p = k.pre
    a = p.this.features
    its = k.map_iters()
    vs = k.locals('vector')
    out = []
    if k.depth == 1 and its:
        en, pos = its[0]
        at = lambda c, j: c.this.features[j]
        out.append(('visited features lost the frame, the others are unchanged', lambda z: AllKeys(a, lambda j: Imp(a.has(j), lambda: Cond(en.rk(zi(j)) < pos(),
                    lambda: Imp(Not(dies(p, a[j])), lambda: after(p, a[j], at(z.cur, j))), lambda: unchanged(a[j], at(z.cur, j)))))))
        for v in vs:
            out.append(('list holds features to delete', lambda z, v=v: (lambda s: All(0, s.n, lambda i: And(a.has(s[i]), lambda: en.rk(zi(s[i])) < pos(), lambda: dies(p, a[s[i]]))))(z.now(v))))
            out.append(('list holds all visited features to delete', lambda z, v=v: (lambda s: AllKeys(a, lambda j: Imp(And(a.has(j), lambda: en.rk(zi(j)) < pos(), lambda: dies(p, a[j])), lambda: Ex(0, s.n, lambda i: Eq(s[i], j)))))(z.now(v))))
    elif k.depth == 1:
        for v in vs:
            out.append(('listed features are erased', lambda z, v=v: (lambda s: AllKeys([a, z.cur.this.features], lambda j: Iff(z.cur.this.features.has(j), And(a.has(j), Not(Ex(0, z.n, lambda i: Eq(s[i], j)))))))(z.now(v))))
    else:
        for loc, now, then in k.seqs('Feature', 'observes'):
            for c0 in k.counters():
                out.append(('slots moved so far', lambda z, loc=loc, then=then, c0=c0: (lambda s: And(Eq(s.n, then.n), lambda: All(0, then.n, lambda i: Same(s[i], then[If(And(i >= c0, i < c0 + z.n), i + 1, i)]))))(z.now(loc))))
    return out


def rbid_post(p, q):
    a, b = p.this.features, q.this.features
    return [('exactly that feature is deleted', AllKeys([a, b], lambda k: Iff(b.has(k), And(a.has(k), Not(Eq(k, p.fid)))))),
            ('the others stay', AllKeys(a, lambda k: Imp(b.has(k), lambda: Same(b[k], a[k]))))]


def records(p, r):
    o = ObjAt(p, 'Feature', r)
    return And(p.this.features.has(o.id), lambda: Eq(p.this.features[o.id].ref, r))


CONTRACTS = [
    Contract('Frame::Initialize', params=['fid', 't'], ensures=frame_init_post, gen=gens.frame_init,
             modifies=lambda p: [p.this.features, p.this.at('q_wb'), p.this.at('p_wb'), p.this.at('v_wb'), p.this.at('id'), p.this.at('timeStamp')]),
    Contract('Frame::AddFeature', params=['f'], requires=lambda p: [('feature given', nonnull(p.f))], ensures=add_feature_post, gen=gens.frame_add_feature, modifies=lambda p: [p.this.features]),
    Contract('Frame::AddFeatures', params=['fs'], requires=lambda p: [('features given', All(0, p.fs.n, lambda i: nonnull(p.fs[i])))], gen=gens.frame_add_features,
             ensures=lambda p, q: [('always succeeds', q.ret)] + add_features_state(p, q, p.fs.n), modifies=lambda p: [p.this.features],
             invariants=lambda k: [(nm, lambda z, i=i: add_features_state(k.pre, z.cur, z.n)[i][1]) for i, (nm, f) in enumerate(add_features_state(k.pre, k.cur, 0))]),
    Contract('FrameManager::Initialize', params=['n'], gen=gens.fm_init, modifies=lambda p: [p.this.frames, p.this.at('maxWindowSize')],
             ensures=lambda p, q: [('always succeeds', q.ret), ('empty window of the given size', And(Eq(q.this.frames.n, 0), Eq(q.this.maxWindowSize, p.n)))]),
    Contract('FrameManager::AddNewFrame', params=['f'], gen=gens.fm_add, ensures=new_frame_post,
             requires=lambda p: [('window numbered consecutively', wf_window(p.this.frames)), ('a new frame is given', And(nonnull(p.f), lambda: Not(in_window(p.this.frames, p.f)))), ('numbers in range', Imp(p.this.frames.n > 0, lambda: p.this.frames.last.id < U32 - 5))],
             modifies=lambda p: [p.this.frames, Heap('Frame', None, lambda r: Eq(r, p.f.ref))]),
    Contract('FrameManager::RemoveFrame', params=['idx'], gen=gens.fm_remove, ensures=remove_post, invariants=remove_inv,
             requires=lambda p: [('window numbered consecutively', wf_window(p.this.frames)), ('window size', p.this.frames.n < (1 << 31))],
             modifies=lambda p: [p.this.frames, Heap('Frame', 'id', lambda r: And(p.idx > 0, in_window_ref(p.this.frames, r, p.idx)))]),
    Contract('FrameManager::GetFrame', params=['fid'], modular=True, gen=gens.fm_get, ensures=get_frame_post, invariants=lambda k: [('not found so far', lambda z: And(z.n <= k.pre.this.frames.n, lambda: Not(And(k.pre.fid >= k.pre.this.frames[0].id, k.pre.fid < k.pre.this.frames[0].id + z.n))))], requires=lambda p: [('window numbered consecutively', wf_window(p.this.frames))], modifies=lambda p: []),
    Contract('FrameManager::GetMaxFrameID', gen=gens.fm_plain, ensures=max_id_post, requires=lambda p: [('window numbered consecutively', wf_window(p.this.frames))], modifies=lambda p: []),
    Contract('FeatureManager::RemoveByFrameID', params=['frame', 'offset'], gen=gens.remove_by_frame, requires=rbf_pre, ensures=rbf_post, invariants=rbf_inv,
             modifies=lambda p: [p.this.features] + [Heap('Feature', f, lambda r: records(p, r)) for f in ('observes', 'observeNum', 'firstFrameID')]),
    Contract('FeatureManager::RemoveByID', params=['fid'], gen=gens.remove_by_id, ensures=rbid_post, modifies=lambda p: [p.this.features]),
]


def in_window_ref(fr, r, lo):
    return Ex(lo, fr.n, lambda i: Eq(fr[i].ref, r))
