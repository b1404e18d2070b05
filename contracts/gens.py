"""Generators of concrete states (used only for replay, stand-ins and conformance runs)."""
import math
from vc.concrete import f32

NAN = math.nan


def vecv(l):
    return dict(r=len(l), c=1, d=[float(x) for x in l])


def times(r, n, start, step, jitter=True):
    out, t = [], start
    for _ in range(n):
        out.append(t)
        t += step * r.choice([1, 1, 1, 2, 0.5, 1.0001]) + (r.choice([0, 0, 1e-7, 5e-7, 2e-6]) if jitter else 0)
    return out


def imu_msg(G, t, **kw):
    return G.new('IMUMessage', gyro=kw.get('gyro') or G.vec(3, 2), accel=kw.get('accel') or G.vec(3, 10), timeStamp=t)


def observe(G, cams=None, empty=0.1):
    r = G.rng
    if cams is None:
        cams = [c for c in (0, 1, 2) if r.random() < 0.6] if r.random() > empty else []
    return G.new('FeatureObserve', norms=[(c, G.vec(2)) for c in cams])


def feat_msg(G, t, n=None, bad=0.0):
    r = G.rng
    n = r.randint(0, 4) if n is None else n
    ids = [r.randint(0, 5) for _ in range(n)]
    obs = [observe(G) for _ in range(n + (r.choice([-1, 1, 2]) if r.random() < bad and n > 0 else 0))]
    return G.new('FeaturesMessage', ids=ids, observes=obs, flag=[r.randint(0, 1) for _ in range(n)], timeStamp=t)


def loader(G):
    r = G.rng
    per = r.choice([0.005, 0.01, 0.0025])
    base = r.choice([0.0, 0.0, 1.0, 100.0])
    nf, ni = r.choice([0, 1, 1, 2, 3]), r.choice([0, 1, 2, 3, 4, 6, 8, 12])
    ti = times(r, ni, base + r.choice([0, 0.001, -0.02, 0.03]), per)
    if ti and r.random() < 0.5:
        t0 = r.choice(ti) + r.choice([0, 0, 1e-7, 5e-7, 9e-7, 1.1e-6, -1e-7, per / 2, per, per * 1.5, -per])
    else:
        t0 = base + r.uniform(-0.02, 0.05)
    tf = times(r, nf, t0, r.choice([per, 3 * per, 0.05]))
    fs = [feat_msg(G, t) for t in tf]
    ms = [imu_msg(G, t) for t in ti]
    lf = tf[-1] + r.choice([0, 0, 0.01]) if tf else r.choice([NAN, base])
    li = ti[-1] + r.choice([0, 0, 0.01]) if ti else r.choice([NAN, base])
    off = NAN if (lf != lf and li != li and r.random() < 0.8) else r.choice([0.0, 10.0, -1.0, 123.5])
    o = G.root('this', 'DataLoader', featMeas=fs, imuMeas=ms, timeStampOffset=off, lastFeatTimeStamp=lf, lastImuTimeStamp=li, imuPeriod=per)
    return o


def push_time(G, o, last):
    r = G.rng
    off = o['timeStampOffset']
    off = 0.0 if off != off else off
    b = o[last]
    b = r.uniform(0, 2) if b != b else b
    return b + off + r.choice([0.0, 0.005, -0.005, 1.0, -1.0, 1e-6, r.uniform(-0.1, 0.1)])


def push_imu(G):
    o = loader(G)
    G.args['m'] = imu_msg(G, push_time(G, o, 'lastImuTimeStamp'))


def push_feat(G):
    o = loader(G)
    G.args['m'] = feat_msg(G, push_time(G, o, 'lastFeatTimeStamp'), bad=0.3)


def out_msg(G, null=False):
    r = G.rng
    if null and r.random() < 0.3:
        return 0
    return G.new('CombinedMessage', featMeas=feat_msg(G, 1.0) if r.random() < 0.5 else 0, imuMeas=[imu_msg(G, 0.5) for _ in range(r.randint(0, 3))])


def pop_one(G):
    loader(G)
    G.args['m'] = out_msg(G, True)


def pop_packed(G):
    loader(G)
    G.args['m'] = out_msg(G)


def clear(G):
    loader(G)


# ---------------------------------------------------------------- features
def feature(G, fid, first=None, n=None, maxframe=None):
    r = G.rng
    n = r.randint(1, 4) if n is None else n
    first = r.randint(0, 4) if first is None else first
    obs = [observe(G, empty=0.25 if 0 < i < n - 1 else 0.05) for i in range(n)]
    num = sum(len(G.objs[o]['f']['norms']) for o in obs)
    return G.new('Feature', id=fid, firstFrameID=first, observes=obs, observeNum=num, p_w=G.vec(3, 5), status=r.choice([1, 2, 3]))


def features(G, maxframe=6, n=None, minframe=0):
    """feature records as the manager keeps them: first and last observation carry measurements"""
    r = G.rng
    out = []
    for fid in r.sample(range(8), r.randint(0, 4) if n is None else n):
        last = r.randint(minframe, maxframe)
        first = r.randint(minframe, last)
        obs = []
        for i in range(last - first + 1):
            cams = [c for c in (0, 1, 2) if r.random() < 0.6]
            if i in (0, last - first) and not cams:
                cams = [r.choice([0, 1])]
            if 0 < i < last - first and r.random() < 0.3:
                cams = []
            obs.append(observe(G, cams))
        num = sum(len(G.objs[o]['f']['norms']) for o in obs)
        out.append((fid, G.new('Feature', id=fid, firstFrameID=first, observes=obs, observeNum=num, p_w=G.vec(3, 5), status=r.choice([1, 2, 3]))))
    r.shuffle(out)
    return out


def obs_getnorm(G):
    r = G.rng
    G.root('this', 'FeatureObserve', norms=[(c, G.vec(2)) for c in (0, 1, 2, 7) if r.random() < 0.5])
    G.args['cam'] = r.choice([0, 1, 2, 7, 4294967295])


def feat_getnorm(G):
    r = G.rng
    f = G.objs[feature(G, 3, first=r.choice([0, 1, 5]))]['f']
    G.root('this', 'Feature', **f)
    G.args['frame'] = f['firstFrameID'] + r.randint(-2, 5) & 0xffffffff
    G.args['cam'] = r.choice([0, 1, 2])


def add_obs(G):
    feat_getnorm(G)
    G.args.clear()
    G.args['obs'] = observe(G, empty=0.3)


def add_features(G):
    r = G.rng
    frame = r.randint(0, 8)
    fs = features(G, maxframe=frame if r.random() < 0.3 else max(frame - 1, 0))
    G.root('this', 'FeatureManager', features=fs)
    n = r.randint(0, 5)
    G.args['ids'] = [r.choice([x[0] for x in fs] + [r.randint(0, 9)]) for _ in range(n)]
    G.args['obs'] = [observe(G, empty=0.25) for _ in range(n + (r.choice([1, -1]) if n and r.random() < 0.1 else 0))]
    G.args['frame'] = frame
    G.args['changed'] = [x[1] for x in fs if r.random() < 0.3]


# ---------------------------------------------------------------- frames
def uquat(G):
    r = G.rng
    while True:
        v = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in v))
        if n > .1:
            return [f32(x / n) for x in v]


def frame(G, fid=1, t=0.0, feats=()):
    return G.new('Frame', id=fid, timeStamp=t, q_wb=uquat(G), p_wb=G.vec(3, 3), v_wb=G.vec(3, 2), features=list(feats))


def window(G, n=None, first=None, fs=(), mx=None):
    """frames of the window, and which features (id, ref) they know"""
    r = G.rng
    n = r.choice([0, 1, 1, 2, 3, 4, 5]) if n is None else n
    first = r.choice([1, 1, 2, 9]) if first is None else first
    t, out = r.choice([0.0, 10.0]), []
    for i in range(n):
        know = []
        for fid, ref in fs:
            f = G.objs[ref]['f']
            if f['firstFrameID'] <= first + i < f['firstFrameID'] + len(f['observes']) or r.random() < 0.05:
                if r.random() < 0.95:
                    know.append((fid, ref))
        out.append(frame(G, first + i, t, know))
        t += r.choice([0.05, 0.1])
    return out


def frame_manager(G, n=None, fs=(), first=None, root='this', ncam=2, **kw):
    r = G.rng
    ext = [dict(q_bc=uquat(G), p_bc=G.vec(3, 0.5)) for _ in range(ncam)]
    return G.root(root, 'FrameManager', frames=window(G, n, first, fs), extrinsics=ext, maxWindowSize=kw.get('mx', r.choice([1, 2, 3, 5])),
                  minKeyframeTrackedFeatureNum=kw.get('mt', r.choice([0, 1, 2, 3, 25])), minKeyframeMeanParallax=r.choice([0.2, 0.05]), maxKeyframeTranslation=kw.get('tr', r.choice([0.3, 2.0, 4.0, 50.0])))


def frame_init(G):
    r = G.rng
    fs = features(G)
    G.root('this', 'Frame', **G.objs[frame(G, 4, 2.5, fs)]['f'])
    G.args.update(fid=r.choice([1, 7]), t=r.choice([0.0, 3.25]))


def frame_add_feature(G):
    frame_init(G)
    G.args.clear()
    r = G.rng
    fs = features(G, n=2)
    G.args['f'] = r.choice(fs)[1]


def frame_add_features(G):
    frame_add_feature(G)
    G.args.clear()
    r = G.rng
    fs = [x[1] for x in features(G)]
    if fs and r.random() < .4:
        fs.append(r.choice(fs))
    G.args['fs'] = fs


def fm_plain(G):
    frame_manager(G)


def fm_init(G):
    frame_manager(G)
    G.args['n'] = G.rng.choice([1, 5, 10])


def fm_add(G):
    frame_manager(G)
    G.args['f'] = frame(G, G.rng.choice([0, 3]), 77.5, features(G))


def fm_remove(G):
    o = frame_manager(G)
    G.args['idx'] = G.rng.randint(0, len(o['frames']) + 1)


def fm_get(G):
    o = frame_manager(G)
    G.args['fid'] = G.rng.choice([0, 1, 2, 3, 8, 9, 10, 13, 5])


def remove_by_frame(G):
    r = G.rng
    off = r.random() < .6
    fr = r.randint(1, 5)
    fs = features(G, maxframe=r.choice([6, 3, fr + 1, max(fr, 1)]), minframe=1)
    if not off and fs:
        fr = min(G.objs[x[1]]['f']['firstFrameID'] for x in fs) - r.choice([0, 0, 0, 1])
    G.root('this', 'FeatureManager', features=fs)
    G.args.update(frame=max(fr, 1), offset=off)


def remove_by_id(G):
    G.root('this', 'FeatureManager', features=features(G))
    G.args['fid'] = G.rng.randint(0, 9)


def tracked_window(G, root='this', n=None, **kw):
    r = G.rng
    n = r.choice([1, 2, 2, 3, 4, 5]) if n is None else n
    first = r.choice([1, 1, 3])
    fs = features(G, maxframe=first + n - 1, minframe=first, n=r.choice([0, 2, 4, 5]))
    o = frame_manager(G, n, fs, first, root=root, **kw)
    # small steps between some frames
    for i in range(1, n):
        if r.random() < .7:
            a, b = G.objs[o['frames'][i - 1]]['f'], G.objs[o['frames'][i]]['f']
            s = r.choice([0.0, 0.05, 0.29, 0.31, 1.0])
            b['p_wb'] = vecv([f32(x + y) for x, y in zip(a['p_wb']['d'], [s, 0, 0])])
    return o, fs


def key_frame(G):
    o, fs = tracked_window(G)
    G.args['f'] = G.rng.choice(o['frames']) if o['frames'] and G.rng.random() < .95 else 0


def covisible(G):
    r = G.rng
    a = features(G)
    b = [x for x in a if r.random() < .6] + [x for x in features(G) if x[0] not in [y[0] for y in a]]
    G.root('this', 'Frame', **G.objs[frame(G, 4, 2.5, a)]['f'])
    G.args['target'] = frame(G, 3, 2.0, b)


def decide_marg(G):
    r = G.rng
    o, fs = tracked_window(G, 'fm')
    G.root('this', 'MultiViewVisionUpdate', frameManager='fm', margPolicy=r.choice([1, 2, 3, 4]))


# ---------------------------------------------------------------- propagation
def pitem(G, t, ncols=None, **kw):
    r = G.rng
    ncols = 6 * r.randint(0, 3) if ncols is None else ncols
    return G.new('IMUPropagateQueueItem', timeStamp=t, accel=G.vec(3, 12), gyro=G.vec(3, 2), nominalState=dict(p_wb=G.vec(3, 5), v_wb=G.vec(3, 5), q_wb=uquat(G)),
                 imuCov=spd(G, 15), imuExCamCov=gmat(G, 15, ncols, .1))


def gmat(G, rows, cols, s=1.0):
    return dict(r=rows, c=cols, d=[f32(G.rng.uniform(-s, s)) for _ in range(rows * cols)])


def spd(G, n, s=.1):
    r = G.rng
    a = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    d = [f32(s * (sum(a[i][k] * a[j][k] for k in range(n)) / n + (1.0 if i == j else 0))) for i in range(n) for j in range(n)]
    return dict(r=n, c=n, d=[d[min(i, j) * n + max(i, j)] for i in range(n) for j in range(n)])


def queue(G, n=None, root='this', ncam=2, nfr=None):
    r = G.rng
    n = r.choice([0, 1, 1, 2, 3, 5]) if n is None else n
    nfr = r.choice([1, 1, 2, 4]) if nfr is None else nfr
    c = 6 * (ncam + nfr)
    frame_manager(G, nfr, root='fm', ncam=ncam)
    t, its = r.choice([0.0, 50.0]), []
    for _ in range(n):
        its.append(pitem(G, t, c))
        t += r.choice([0.005, 0.005, 0.01, 0.1])
    return G.root(root, 'PropagateQueue', items=its, propagator='fm', exCamCov=spd(G, c), bias_a=G.vec(3, .5), bias_g=G.vec(3, .2),
                  initState=dict(p_wb=G.vec(3, 5), v_wb=G.vec(3, 5), q_wb=uquat(G)), F=gmat(G, 15, 15), G=gmat(G, 15, 12), Q=spd(G, 12))


def motion(G):
    r = G.rng
    queue(G)
    t = r.choice([0.0, 12.5])
    G.args.update(item_0=pitem(G, t), item_1=pitem(G, t + r.choice([0.005, 0.01, 0.1, 0.0])), ba=G.vec(3), bg=G.vec(3, .3), g=vecv([0, 0, 9.8]), midAccel=G.vec(3), midGyro=G.vec(3))


def covprop(G):
    r = G.rng
    o = queue(G)
    process(o, G)
    t = r.choice([0.0, 12.5])
    G.args.update(item_0=pitem(G, t), item_1=pitem(G, t + r.choice([0.005, 0.01, 0.1])), midAccel=G.vec(3, 12), midGyro=G.vec(3, 2))


def process(o, G):
    """F and G as left by ResetProcessFunction or by an earlier step"""
    f = [[float(i == j) for j in range(15)] for i in range(15)]
    g = [[0.0] * 12 for i in range(15)]
    if G.rng.random() < .6:
        rnd = lambda: f32(G.rng.uniform(-1, 1))
        for i in range(3):
            for j in range(3):
                f[i][3 + j], f[3 + i][6 + j], f[3 + i][9 + j], f[6 + i][6 + j], f[6 + i][12 + j] = rnd(), rnd(), rnd(), rnd(), rnd()
                g[i][j], g[3 + i][j], g[6 + i][3 + j], g[9 + i][6 + j], g[12 + i][9 + j] = rnd(), rnd(), rnd(), rnd(), rnd()
    o['F'] = dict(r=15, c=15, d=[x for l in f for x in l])
    o['G'] = dict(r=15, c=12, d=[x for l in g for x in l])


def noise(G):
    queue(G)
    G.args.update(na=f32(G.rng.random()), ng=f32(G.rng.random()), nwa=f32(G.rng.random()), nwg=f32(G.rng.random()))


def gravity(G):
    G.args['gravity'] = vecv([0, 0, f32(G.rng.choice([9.8, 9.81, 10.0, 1.5]))])


def prop(G):
    r = G.rng
    o = queue(G)
    process(o, G)
    gravity(G)
    t = G.objs[o['items'][-1]]['f']['timeStamp'] if o['items'] else 3.0
    G.args.update(accel=G.vec(3, 12), gyro=G.vec(3, 2), t=t + r.choice([0.005, 0.01, 0.1]))


def repro(G):
    o = queue(G, G.rng.choice([0, 1, 2, 3, 5, 8]))
    process(o, G)
    gravity(G)


def reset_origin(G):
    r = G.rng
    o = queue(G, r.choice([0, 1, 2, 3, 5, 8]))
    ts = [G.objs[i]['f']['timeStamp'] for i in o['items']] or [1.0]
    G.args.update(t=r.choice(ts) + r.choice([0, 0, 0.0005, -0.0005, 0.004, 1.0, -1.0]), threshold=r.choice([0.001, 0.0, 0.005, 0.1]))


def publish(G):
    r = G.rng
    o = queue(G, root='pq')
    c = {k: v for k, v in o.items()}
    c['propagator'] = None
    G.root('this', 'Backend', propagator=c)
    G.args.update(state=dict(p_wb=G.vec(3), v_wb=G.vec(3), q_wb=uquat(G), bias_a=G.vec(3), bias_g=G.vec(3)), t=-5.0)


# ---------------------------------------------------------------- vision update
def updater(G, nfr=None, ncam=None, nit=None, extra=0, **kw):
    """MultiViewVisionUpdate with its managers; the covariance covers `extra` more frames than the state"""
    r = G.rng
    nfr = r.choice([1, 2, 3, 4]) if nfr is None else nfr
    ncam = r.choice([0, 1, 2, 3]) if ncam is None else ncam
    o = queue(G, r.choice([1, 2, 3]) if nit is None else nit, root='pq', ncam=ncam, nfr=nfr)
    c = 6 * (ncam + nfr - 1)
    for i in o['items']:
        G.objs[i]['f']['imuExCamCov'] = gmat(G, 15, c, .1)
    o['exCamCov'] = spd(G, c) if c else dict(r=0, c=0, d=[])
    u = dict(propagator='pq', frameManager='fm', margPolicy=r.choice([1, 2, 3, 4]), covariance=spd(G, 15 + c + 6 * extra), measureNoise=f32(r.choice([.01, .1, 1.0])), maxUsedFeatures=r.choice([0, 1, 2, 20]), trianglator=None, pnpSolver=None, featureManager=None)
    u.update(kw)
    return G.root('this', 'MultiViewVisionUpdate', **u)


def assemble(G):
    r = G.rng
    o = updater(G)
    if r.random() < .2:
        x = G.objs[G.roots['pq']['f']['items'][0]]['f']
        c = x['imuExCamCov']['c'] + r.choice([-6, 6, 1, 12])
        if c > 0:
            x['imuExCamCov'] = gmat(G, 15, c)
            G.roots['pq']['f']['exCamCov'] = spd(G, c)
    o['covariance'] = gmat(G, 4, 5)


def expand(G):
    updater(G)


def store(G):
    r = G.rng
    updater(G, covariance=gmat(G, 0, 0))
    n = 15 + 6 * r.choice([0, 1, 2, 4])
    G.roots['this']['f']['covariance'] = gmat(G, n, n)


def newest_pose(G):
    o = updater(G)
    if G.rng.random() < .15:
        G.roots['fm']['f']['frames'] = []


def reduce(G):
    updater(G, extra=1)


def kalman(G):
    r = G.rng
    o = updater(G)
    n = o['covariance']['r']
    m = r.choice([1, 2, 3, 5, n, n + 3])
    o['Hx_r'] = gmat(G, m, n + 1, r.choice([1.0, .3]))
    o['measureNoise'] = f32(r.choice([.1, .3, 1.0]))


# ---------------------------------------------------------------- attitude estimator
def atti(G, n=None, root='this'):
    r = G.rng
    n = r.choice([0, 0, 1, 2, 3, 6]) if n is None else n
    t, its = r.choice([0.0, 0.0, 20.0]), []
    for _ in range(n):
        its.append(G.new('AttitudeEstimateItem', timeStamp=t, accel=G.vec(3, 10), gyro=G.vec(3, 1), q_wb=uquat(G)))
        t += r.choice([0.005, 0.005, 0.01, 0.0, 0.1])
    return G.root(root, 'AttitudeEstimate', items=its, bias_a=G.vec(3, .3), bias_g=G.vec(3, .1), errInt=G.vec(3, .1), Kp=f32(r.choice([0.001, 0.5, 0.0])), Ki=f32(r.choice([0.0001, 0.1, 0.0])))


def atti_time(G, o):
    r = G.rng
    ts = [G.objs[i]['f']['timeStamp'] for i in o['items']] or [1.0]
    return r.choice([r.choice(ts), max(ts), min(ts), (min(ts) + max(ts)) / 2]) + r.choice([0, 0, 0.005, -0.005, 0.001, -0.001, 0.0025, 0.1, -0.1])


def atti_prop(G):
    r = G.rng
    o = atti(G)
    gravity(G)
    g = G.args['gravity']['d'][2]
    d = [r.gauss(0, 1) for _ in range(3)]
    k = r.choice([0, 0, 1, 2])
    if k == 1:
        d = [r.gauss(0, .05), r.gauss(0, .05), 1]
    elif k == 2:
        d = r.choice([[0, 0, -1], [1, 0, 0], [0, 0, 1], [1e-4, 0, -1]])
    n = math.sqrt(sum(x * x for x in d))
    m = g + r.choice([0, 0, 0.02, -0.03, 0.05, -0.06, 0.5])
    a = [f32(x / n * m + b) for x, b in zip(d, o['bias_a']['d'])]
    if r.random() < .05:
        a = [0.0, 0.0, 0.0]
    G.args.update(accel=vecv(a), gyro=G.vec(3, 1), t=max([G.objs[i]['f']['timeStamp'] for i in o['items']] or [1.0]) + r.choice([0.005, 0.01, 0, -0.001, 0.1]))


def atti_get(G):
    r = G.rng
    o = atti(G)
    G.args.update(t=atti_time(G, o), threshold=r.choice([0.005, 0.001, 0.01, 0.0, 0.2, 0.0024, 0.0026]), atti=uquat(G))


def atti_bias(G):
    atti(G)
    G.args.update(bias_a=G.vec(3), bias_g=G.vec(3))


def atti_clean(G):
    o = atti(G)
    G.args.update(t=atti_time(G, o), threshold=f32(G.rng.choice([0.001, 0.005, 0.0, 0.02, 0.3])))


# ---------------------------------------------------------------- scenes: cameras that look at points
def qm(a, b):
    w, x, y, z = a
    e, f, g, h = b
    return [w * e - x * f - y * g - z * h, w * f + x * e + y * h - z * g, w * g - x * h + y * e + z * f, w * h + x * g - y * f + z * e]


def qturn(q, v):
    w, x, y, z = q
    u = [x, y, z]
    c = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    t = c(u, v)
    s = c(u, t)
    return [v[i] + 2 * (w * t[i] + s[i]) for i in range(3)]


def qc(q):
    return [q[0], -q[1], -q[2], -q[3]]


def qsmall(G, s):
    r = G.rng
    v = [1.0] + [r.gauss(0, s) for _ in range(3)]
    n = math.sqrt(sum(x * x for x in v))
    return [x / n for x in v]


def q32(q):
    return [f32(x) for x in q]


def project(q, p, x):
    """normalised image point of x in the camera with world pose (q, p), and its depth"""
    c = qturn(qc(q), [a - b for a, b in zip(x, p)])
    z = c[2] if abs(c[2]) > 1e-3 else 1e-3
    return [c[0] / z, c[1] / z], c[2]


def views(G, n=None):
    """n camera poses that look at one point, with what they see of it"""
    r = G.rng
    n = r.choice([0, 1, 2, 2, 3, 4, 6]) if n is None else n
    base = [float(v) for v in uquat(G)] if r.random() < .5 else qsmall(G, .2)
    far = r.choice([1, 1, 1, 1, 30, 1000])
    x = qturn(base, [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(3, 8) * far * r.choice([1, 1, 1, -1])])
    q, p, z = [], [], []
    noise = r.choice([0, .002, .002, .05])
    for _ in range(n):
        a = q32(qm(base, qsmall(G, .1)))
        b = [f32(r.gauss(0, .7)) for _ in range(3)]
        if r.random() < .05:
            b = [f32(v * .9) for v in x]
        h, d = project(a, b, x)
        q.append(a)
        p.append(vecv(b))
        z.append(vecv([f32(v + r.gauss(0, noise)) for v in h]))
    return q, p, z, x


def triangulate(G):
    q, p, z, x = views(G)
    G.root('this', 'Trianglator')
    G.args.update(qs=q, ps=p, zs=z, x=G.vec(3))


def refine(G):
    r = G.rng
    q, p, z, x = views(G, r.choice([1, 2, 3, 5]))
    G.root('this', 'Trianglator')
    s = r.choice([0, .01, .1, .5])
    G.args.update(qs=q, ps=p, zs=z, x=vecv([f32(v * (1 + r.gauss(0, s)) + r.gauss(0, s)) for v in x]))


def residual(G):
    r = G.rng
    q, p, z, x = views(G, 1)
    G.root('this', 'Trianglator')
    G.args.update(q=q32(qc(q[0])), p=vecv([f32(v) for v in qturn(qc(q[0]), [-v for v in p[0]['d']])]), x=vecv([f32(v) for v in x]), z=z[0])


def jacobian(G):
    r = G.rng
    G.root('this', 'Trianglator')
    k = r.choice([.003, .1, .3])
    q, t = qsmall(G, .2), [r.gauss(0, .5) for _ in range(3)]
    x = [r.uniform(-.5, .5), r.uniform(-.5, .5), r.choice([.1, .3, 1.0, 1e-3])]
    h = [a + x[2] * b for a, b in zip(qturn(q, [x[0], x[1], 1.0]), t)]
    G.args.update(q=q32(q), t=vecv([f32(v) for v in t]), x=vecv([f32(v) for v in x]), z=vecv([f32(h[i] / h[2] + r.gauss(0, k)) for i in range(2)]),
                  J=dict(r=2, c=3, d=[0.0] * 6), r=vecv([0.0, 0.0]), w=-1.0)


def scene(G, nfr=None, ncam=None, npt=None, noise=None, full=.7, nit=None, behind=.1, span=0):
    """updater whose frames and cameras look at common points; every point is a stored feature"""
    r = G.rng
    nfr = r.choice([1, 2, 3, 4]) if nfr is None else nfr
    ncam = r.choice([1, 2, 2, 3]) if ncam is None else ncam
    o = updater(G, nfr, ncam, nit)
    fm = G.roots['fm']['f']
    base = qsmall(G, .5)
    for e in fm['extrinsics']:
        e['q_bc'], e['p_bc'] = q32(qsmall(G, .05)), vecv([f32(r.gauss(0, .3)) for _ in range(3)])
    for i in fm['frames']:
        a = G.objs[i]['f']
        a['q_wb'], a['p_wb'] = q32(qm(base, qsmall(G, .05))), vecv([f32(r.gauss(0, .5)) for _ in range(3)])
        a['features'] = []
    noise = r.choice([0, .001, .01]) if noise is None else noise
    npt = r.choice([0, 1, 2, 3, 5]) if npt is None else npt
    first = G.objs[fm['frames'][0]]['f']['id'] if fm['frames'] else 1
    out = []
    for fid in r.sample(range(40), npt):
        x = qturn(base, [r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(3, 9) * (-1 if r.random() < behind else r.choice([1, 1, 1, 1, 40]))])
        last = nfr - 1 if r.random() < .8 else r.randrange(nfr)
        a0 = r.randint(0, last)
        if span and r.random() < span:
            a0, last = 0, nfr - 1
        obs = []
        for k in range(a0, last + 1):
            f = G.objs[fm['frames'][k]]['f']
            cams = [c for c in range(ncam) if r.random() < full]
            if k in (a0, last) and not cams:
                cams = [r.randrange(ncam)]
            ns = []
            for c in cams:
                e = fm['extrinsics'][c]
                wc, pc = qm(f['q_wb'], e['q_bc']), [u + v for u, v in zip(qturn(f['q_wb'], e['p_bc']['d']), f['p_wb']['d'])]
                h, d = project(wc, pc, x)
                ns.append((c, vecv([f32(v + r.gauss(0, noise)) for v in h])))
            obs.append(G.new('FeatureObserve', norms=ns))
        num = sum(len(G.objs[b]['f']['norms']) for b in obs)
        ref = G.new('Feature', id=fid, firstFrameID=first + a0, observes=obs, observeNum=num, p_w=vecv([f32(v + r.gauss(0, .01)) for v in x]), status=r.choice([1, 2, 3]))
        out.append((fid, ref))
        for k in range(a0, last + 1):
            G.objs[fm['frames'][k]]['f']['features'].append((fid, ref))
    G.root('fe', 'FeatureManager', features=list(out))
    o['featureManager'] = 'fe'
    G.root('tg', 'Trianglator')
    o['trianglator'] = 'tg'
    return o, out


def tri_feature(G):
    r = G.rng
    o, fs = scene(G, npt=r.choice([1, 1, 2]))
    G.args['f'] = fs[0][1] if r.random() < .97 else 0


# ---------------------------------------------------------------- pose from points
def pnp(G, small=False):
    r = G.rng
    q, p = q32(qm(qsmall(G, .5), qsmall(G, .1))), [f32(r.gauss(0, 1)) for _ in range(3)]
    n = r.choice([0, 1, 3, 4, 5, 8, 12]) if not small else r.choice([0, 2, 3, 3, 4, 5, 8])
    noise = r.choice([0, .001, .01])
    x, z = [], []
    for _ in range(n):
        c = [r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(2, 8)]
        if r.random() < .04:
            c[2] = 0.0
        w = [f32(a + b) for a, b in zip(qturn(q, c), p)]
        h, d = project(q, p, w)
        out = r.random() < .12
        x.append(vecv(w))
        z.append(vecv([f32(v + r.gauss(0, 1.0 if out else noise)) for v in h]))
    if r.random() < .1:
        z = z[:-1] if z else [G.vec(2)]
    s = r.choice([.01, .05, .1])
    G.root('this', 'PnPSolver', maxIterateTimes=r.choice([0, 1, 1, 2, 3, 10]), maxNormDeltaX=f32(r.choice([1e-6, 1e-3, .1])),
           ransacParam=dict(inlierThres=f32(r.choice([1e-3, 1e-2, 1e-4])), maxIterateTimes=r.choice([0, 1, 2, 5, 20]), inlierRateThres=f32(r.choice([.9, .5, .0, 1.0]))))
    G.args.update(xs=x, zs=z, q=q32(qm(q, qsmall(G, s))), p=vecv([f32(v + r.gauss(0, s)) for v in p]))


def pnp_small(G):
    pnp(G, True)


def pnp_flags(G):
    pnp(G, True)
    G.args['flags'] = [G.rng.random() < .5 for _ in range(G.rng.choice([0, 2, 5, 12]))]


# ---------------------------------------------------------------- measurement equations
def measure_one(G):
    r = G.rng
    o, fs = scene(G, npt=1, full=r.choice([.5, 1, 1]), behind=.05)
    fm = G.roots['fm']['f']
    o['Hx_cols'] = 15 + 6 * len(fm['extrinsics']) + 6 * len(fm['frames']) - 6
    G.args.update(f=fs[0][1], Hx_r=gmat(G, *r.choice([(0, 0), (3, 4)])))


def measure_all(G):
    r = G.rng
    o, fs = scene(G, npt=r.choice([1, 2, 3, 5, 12, 20]), full=r.choice([.6, 1, 1]), behind=.05)
    o['features'] = [i for _, i in fs if G.objs[i]['f']['observeNum'] >= 2]


# ---------------------------------------------------------------- the whole back end
def backend(G, nfr=2, npt=14, ncam=None, nit=None, status=1, behind=.03, noise=None, full=1, span=0):
    """Backend with managers, histories and a scene that its frames look at"""
    r = G.rng
    ncam = r.choice([1, 2, 2, 3]) if ncam is None else ncam
    o, fs = scene(G, nfr=max(nfr, 1), ncam=ncam, npt=npt, noise=r.choice([0, 0, .001]) if noise is None else noise, full=full, nit=nit, behind=behind, span=span)
    fm, fe, pq, tg, up = (G.roots.pop(n)['f'] for n in ('fm', 'fe', 'pq', 'tg', 'this'))
    if nfr == 0:
        fm['frames'], fe['features'] = [], []
    per = .005
    t0 = r.choice([0.0, 10.0])
    step = r.choice([.05, .05, .1])
    for k, i in enumerate(fm['frames']):
        G.objs[i]['f']['timeStamp'] = t0 + k * step
    pq['propagator'] = 'this.frameManager'
    for k, i in enumerate(pq['items']):
        G.objs[i]['f']['timeStamp'] = t0 + step * (len(fm['frames']) - 1) + per * k
    up.update(propagator='this.propagator', frameManager='this.frameManager', featureManager='this.featureManager', trianglator='this.trianglator', pnpSolver='this.pnpSolver')
    fm['maxWindowSize'] = r.choice([max(1, nfr), nfr + 1, nfr + 3])
    its = []
    q0 = G.objs[fm['frames'][0]]['f']['q_wb'] if fm['frames'] else uquat(G)
    a = t0 + r.choice([0, 0, 0, 0, .001, -.001, .002, .01, .05]) - per * r.choice([0, 2, 5])
    for k in range(r.choice([0, 6, 8, 14, 14, 20])):
        its.append(G.new('AttitudeEstimateItem', timeStamp=a, accel=G.vec(3, 10), gyro=G.vec(3, .2), q_wb=q32(qm(q0, qsmall(G, .01)))))
        a += per
    at = dict(items=its, bias_a=G.vec(3, .1), bias_g=G.vec(3, .05), errInt=G.vec(3, .01), Kp=f32(.001), Ki=f32(.0001))
    ld = dict(featMeas=[], imuMeas=[], timeStampOffset=0.0, lastFeatTimeStamp=NAN, lastImuTimeStamp=NAN, imuPeriod=f32(per) if False else per)
    pnp_ = dict(maxIterateTimes=10, maxNormDeltaX=f32(1e-6), ransacParam=dict(inlierThres=f32(1e-2), maxIterateTimes=5, inlierRateThres=f32(.9)))
    process(pq, G)
    G.args['gravity'] = vecv([0, 0, f32(9.8)])
    return G.root('this', 'Backend', config=None, dataloader=ld, featureManager=fe, frameManager=fm, attitudeEstimator=at, propagator=pq, trianglator=tg, pnpSolver=pnp_, visionUpdator=up, status=status), fs


def start(G):
    r = G.rng
    o, fs = backend(G, nfr=r.choice([0, 1, 2, 2, 2, 2, 2, 3]), npt=r.choice([3, 10, 12, 16, 16, 20]), ncam=r.choice([1, 2, 2, 2, 3]), nit=r.choice([0, 0, 2]), span=.9)
    fr = o['frameManager']['frames']
    if len(fr) > 1 and r.random() < .05:
        G.objs[fr[1]]['f']['timeStamp'] = G.objs[fr[0]]['f']['timeStamp']


def multiview(G):
    r = G.rng
    o, fs = backend(G, nfr=r.choice([1, 2, 3]), npt=r.choice([0, 1, 3, 6]), full=r.choice([.6, 1]), behind=.15)
    fr = o['frameManager']['frames']
    G.args['frame'] = r.choice(fr) if r.random() < .97 else 0


def frame_pose(G):
    r = G.rng
    o, fs = backend(G, nfr=2, npt=r.choice([4, 10, 14, 20]), noise=r.choice([0, .001]), full=r.choice([.8, 1]))
    fr = o['frameManager']['frames']
    for _, f in fs:
        G.objs[f]['f']['status'] = r.choice([2, 2, 2, 2, 2, 2, 1])
    G.args['frame'] = r.choice(fr) if r.random() < .97 else 0
    if G.args['frame']:
        f = G.objs[G.args['frame']]['f']
        f['q_wb'] = q32(qm(f['q_wb'], qsmall(G, .02)))
        f['p_wb'] = vecv([f32(v + r.gauss(0, .1)) for v in f['p_wb']['d']])


def start_propagation(G):
    r = G.rng
    o, fs = backend(G, nfr=2, npt=1)
    ts = [G.objs[i]['f']['timeStamp'] for i in o['attitudeEstimator']['items']] or [1.0]
    G.args.update(initState=dict(p_wb=G.vec(3, 5), v_wb=G.vec(3, 5), q_wb=uquat(G)), t=r.choice(ts) + r.choice([0, 0, .001, -.001, .0049, .0051, 1.0, -1.0]))


# ---------------------------------------------------------------- vision update
def select(G):
    r = G.rng
    o, fs = scene(G, npt=r.choice([0, 1, 2, 3, 5, 8]), full=r.choice([.6, 1]), behind=.2)
    o['maxUsedFeatures'] = r.choice([0, 1, 2, 3, 20])


def joint(G, ncam, nfr, its):
    """one joint covariance for the state of the entries"""
    c = 6 * (ncam + nfr - 1)
    n = 15 + c
    s = spd(G, n, G.rng.choice([.03, .1, .3]))
    A = [s['d'][i * n:(i + 1) * n] for i in range(n)]
    for i in its:
        f = G.objs[i]['f']
        f['imuCov'] = dict(r=15, c=15, d=[A[i][j] for i in range(15) for j in range(15)])
        f['imuExCamCov'] = dict(r=15, c=c, d=[A[i][15 + j] for i in range(15) for j in range(c)])
    return dict(r=c, c=c, d=[A[15 + i][15 + j] for i in range(c) for j in range(c)])


def update(G):
    r = G.rng
    o, fs = scene(G, nfr=r.choice([1, 2, 3, 3, 4]), ncam=r.choice([1, 2, 2, 3]), npt=r.choice([0, 0, 1, 2, 4, 6]), full=r.choice([.7, 1]), behind=.1, nit=r.choice([0, 1, 1, 2, 3, 4]), span=.5, noise=r.choice([0, .001, .01]))
    fm, pq = G.roots['fm']['f'], G.roots['pq']['f']
    ncam, nfr, its = len(fm['extrinsics']), len(fm['frames']), pq['items']
    pq['exCamCov'] = joint(G, ncam, nfr, its)
    if its and r.random() < .05:
        f = G.objs[r.choice(its)]['f']
        f['imuExCamCov'] = gmat(G, 15, r.choice([0, 6]))
    t = r.choice([0.0, 10.0])
    for i in its:
        f = G.objs[i]['f']
        f['timeStamp'] = t
        t += .005
        a = G.objs[fm['frames'][-1]]['f']
        f['nominalState'] = dict(p_wb=vecv([f32(v + r.gauss(0, .1)) for v in a['p_wb']['d']]), v_wb=G.vec(3, 1), q_wb=q32(qm(a['q_wb'], qsmall(G, .02))))
    fm['maxWindowSize'] = r.choice([max(1, nfr - 1), nfr, nfr + 2])
    fm['minKeyframeTrackedFeatureNum'] = r.choice([0, 2, 25])
    process(pq, G)
    o['maxUsedFeatures'] = r.choice([1, 2, 20, 20])
    o['measureNoise'] = f32(r.choice([.01, .05, .2]))
    for i in fm['frames']:
        a = G.objs[i]['f']
        a['v_wb'] = G.vec(3, 1)
    ts = [G.objs[i]['f']['timeStamp'] for i in its] or [0.0]
    G.args.update(t=r.choice(ts) + r.choice([0, 0, .001, -.001, .02]), threshold=r.choice([.002, .006, 0.0]), gravity=vecv([0, 0, f32(9.8)]))


# ---------------------------------------------------------------- one processing step
def to_message(G, o, fs):
    """the newest frame becomes a tracking message that is still to be processed"""
    r = G.rng
    fm, fe = o['frameManager'], o['featureManager']
    k = fm['frames'].pop()
    fr = G.objs.pop(k)['f']
    ids, obs = [], []
    for fid, ref in list(fs):
        f = G.objs[ref]['f']
        if f['firstFrameID'] + len(f['observes']) - 1 != fr['id']:
            continue
        ids.append(fid)
        ob = f['observes'].pop()
        f['observeNum'] -= len(G.objs[ob]['f']['norms'])
        obs.append(ob)
        while f['observes'] and not G.objs[f['observes'][-1]]['f']['norms']:
            f['observes'].pop()
        if not f['observes']:
            fe['features'] = [x for x in fe['features'] if x[1] != ref]
            for i in fm['frames']:
                g = G.objs[i]['f']
                g['features'] = [x for x in g['features'] if x[1] != ref]
    if r.random() < .05 and ids:
        obs.pop()
    return G.new('FeaturesMessage', ids=ids, observes=obs, flag=[0] * len(ids), timeStamp=fr['timeStamp']), fr


def run_once(G):
    r = G.rng
    init = r.random() < .6
    k = r.choice([2, 3, 3, 4]) if init else r.choice([1, 2, 2, 2, 2])
    o, fs = backend(G, nfr=k, npt=r.choice([0, 3, 8, 12]) if init else r.choice([3, 14, 16, 20]), ncam=r.choice([1, 2, 2, 3]), nit=r.choice([1, 2, 3, 4]) if init else r.choice([0, 0, 2]), span=.9, status=2 if init else 1)
    fm, pq, ld = o['frameManager'], o['propagator'], o['dataloader']
    m, fr = to_message(G, o, fs)
    w = len(fm['frames'])
    ncam = len(fm['extrinsics'])
    per = ld['imuPeriod']
    fm['maxWindowSize'] = r.choice([max(1, w), max(1, w), w + 1, w + 3])
    fm['minKeyframeTrackedFeatureNum'] = r.choice([0, 5, 25])
    t = fr['timeStamp']
    if init:
        pq['exCamCov'] = joint(G, ncam, w + 1, pq['items'])
        s = t - per * r.choice([0, 0, 1, 2, 2, 8])
        for i in pq['items']:
            f = G.objs[i]['f']
            f['timeStamp'] = s
            s += per
            f['nominalState'] = dict(p_wb=vecv([f32(v + r.gauss(0, .1)) for v in fr['p_wb']['d']]), v_wb=G.vec(3, 1), q_wb=q32(qm(fr['q_wb'], qsmall(G, .02))))
    up = o['visionUpdator']
    up['maxUsedFeatures'], up['measureNoise'] = r.choice([1, 2, 20]), f32(r.choice([.01, .05, .2]))
    kind = r.choice(['f', 'f', 'f', 'fi', 'fi', 'i', 'if', ''])
    its = [G.objs[i]['f']['timeStamp'] for i in o['attitudeEstimator']['items']]
    a = max(its + [t])
    if 'f' in kind:
        ld['featMeas'] = [m]
        if r.random() < .3:
            m2 = feat_msg(G, t + .05)
            ld['featMeas'].append(m2)
    n = r.choice([1, 2, 3]) if 'i' in kind else 0
    b = {'fi': t + r.choice([0, 0, .001, .006]), 'if': t - .001, 'i': t}.get(kind, t)
    ld['imuMeas'] = [imu_msg(G, b + per * j) for j in range(n)]
    ld['lastFeatTimeStamp'] = t + .05 if ld['featMeas'] else NAN
    ld['lastImuTimeStamp'] = b + per * n if n else NAN


def grow(G):
    r = G.rng
    o, fs = backend(G, nfr=r.choice([1, 2, 3, 4]), npt=r.choice([0, 2, 5]), full=.7, status=1)
    o['frameManager']['maxWindowSize'] = 9
    m, fr = to_message(G, o, fs)
    if len(o['frameManager']['frames']) > 1:
        o['status'] = 2
        c = 6 * (len(o['frameManager']['extrinsics']) + len(o['frameManager']['frames']))
        o['propagator'].update(items=[], exCamCov=gmat(G, c, c))
    G.args['m'] = m if r.random() < .95 else 0


def drop(G):
    r = G.rng
    o, fs = backend(G, nfr=r.choice([1, 2, 3, 4]), npt=r.choice([0, 2, 5]), full=.7)
    G.args['policy'] = r.choice([1, 1, 2, 3, 3, 4])
