"""P13: the measurement equations."""
from .lib import *
from . import gens
from .p15 import W, Views, camera, wf_views, numbered, multi_pre


def np_of(m):
    import numpy as np
    return np.array([[float(m.get(i, j)) for j in range(m.cols)] for i in range(m.rows)]).reshape(m.rows, m.cols)


def np_rot(q):
    from .p16 import np_rot as r
    return r([float(c) for c in q.c])


def columns(p):
    return 15 + 6 * p.fm.extrinsics.n + 6 * p.fm.frames.n - 6


def np_rows(p, f, rng=None):
    """Hf, Hx, r of all observations of a feature, in double precision (with rounding noise when rng is given)"""
    import numpy as np
    from vc.concrete import Ambiguous
    fr, e = p.fm.frames, p.fm.extrinsics
    n = columns(p)
    Hf, Hx, r = [], [], []
    skew_ = lambda v: np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    pw = np.array([float(c) for c in f.p_w.lst()])
    EPS = 4e-7
    fuzz = (lambda v, m: v + EPS * m * rng.standard_normal(np.shape(v))) if rng is not None else (lambda v, m: v)
    for i in range(f.observes.n):
        k = f.firstFrameID + i - fr[0].id
        a, o = fr[k], f.observes[i].norms
        for c in sorted(o.d):
            Rbw, Rcb = np_rot(a.q_wb).T, np_rot(e[c].q_bc).T
            pb = Rbw @ (pw - np.array(a.p_wb.lst(), float))
            pc = Rcb @ (pb - np.array(e[c].p_bc.lst(), float))
            pc = fuzz(pc, max(np.abs(pb).max(), np.abs(pw).max()))
            if abs(pc[2]) < 5e-2:
                raise Ambiguous()
            J = np.array([[1 / pc[2], 0, -pc[0] / pc[2] ** 2], [0, 1 / pc[2], -pc[1] / pc[2] ** 2]])
            row = np.zeros((2, n))
            at, rt = (0, 6) if k == fr.n - 1 else (15 + 6 * e.n + 6 * k, 15 + 6 * e.n + 6 * k + 3)
            row[:, at:at + 3] = -J @ Rcb @ Rbw
            row[:, rt:rt + 3] = J @ Rcb @ skew_(pb)
            ex = 15 + 6 * c
            row[:, ex:ex + 3] = -J @ Rcb
            row[:, ex + 3:ex + 6] = J @ skew_(pc)
            Hx.append(fuzz(row, np.abs(row).max()))
            Hf.append(fuzz(J @ Rcb @ Rbw, np.abs(J).max()))
            r.append(np.array(o[c].lst(), float) - pc[:2] / pc[2])
    return np.vstack(Hf), np.vstack(Hx), np.concatenate(r)


def eliminated(Hf, Hx, r):
    import numpy as np
    u, s, vt = np.linalg.svd(Hf, full_matrices=True)
    N = u[:, 3:].T
    A = N @ np.hstack([Hx, r[:, None]])
    return A.T @ A, s


def gram(p, f):
    """information on state and residual after the feature position is eliminated; no verdict when rounding alone moves it"""
    import numpy as np
    from vc.concrete import Ambiguous
    G, s = eliminated(*np_rows(p, f))
    if len(s) < 3 or s[2] < 1e-3 * s[0]:
        raise Ambiguous()
    rng = np.random.default_rng(7)
    for _ in range(6):
        if not near(eliminated(*np_rows(p, f, rng))[0], G, 5e-4):
            raise Ambiguous()
    return G


def near(a, b, tol=5e-3):
    import numpy as np
    # entry (i, j) compared on the scale of both columns
    d = np.sqrt(np.maximum(np.abs(np.diag(b)), 1e-30))
    s = max(d.max(), 1e-12)
    sc = np.outer(np.maximum(d, s * 2e-2), np.maximum(d, s * 2e-2))
    return bool((np.abs(a - b) <= tol * sc).all())


def one_post(p, q):
    def shape():
        n = 2 * p.f.observeNum - 3
        return And(q.ret, Eq(q.Hx_r.rows, n), Eq(q.Hx_r.cols, columns(p) + 1))

    def info():
        A = np_of(q.Hx_r)
        return near(A.T @ A, gram(p, p.f))
    return [('two rows per observation minus the eliminated position', shape), ('the rows carry the information of the linearised reprojection errors without the feature position', info)]


def all_post(p, q):
    fs = p.this.features
    n = columns(p)

    def shape():
        rows = sum(2 * fs[i].observeNum - 3 for i in range(fs.n))
        h = q.this.Hx_r
        want = n if rows > n + 1 else rows
        return And(q.ret, Eq(h.rows, want), Eq(h.cols, n + 1), Eq(q.this.Hx_rows, want), Eq(q.this.Hx_cols, n))

    def info():
        G = sum(gram(p, fs[i]) for i in range(fs.n))
        A = np_of(q.this.Hx_r)
        A = A.T @ A
        rows = sum(2 * fs[i].observeNum - 3 for i in range(fs.n))
        if rows > n + 1:
            A[-1, -1] = G[-1, -1] = max(A[-1, -1], G[-1, -1])
        return near(A, G)

    def stacked():
        rows = [2 * fs[i].observeNum - 3 for i in range(fs.n)]
        if sum(rows) > n + 1:
            return True
        A, k = np_of(q.this.Hx_r), 0
        for i in range(fs.n):
            B = A[k:k + rows[i]]
            if not near(B.T @ B, gram(p, fs[i])):
                return False
            k += rows[i]
        return True
    return [('rows and columns of the system', shape), ('the equations of every feature stand below each other', stacked), ('stacking and compression preserve the information', info)]


def one_pre(p):
    f = p.f
    return [('observations belong to the window', wf_views(p, f)), ('the observations are counted', sum(f.observes[i].norms.n for i in range(f.observes.n)) == f.observeNum), ('the position can be eliminated', f.observeNum >= 2),
            ('columns are set', Eq(p.this.Hx_cols, columns(p)))]


def all_pre(p):
    fs = p.this.features
    return [('features have views', And(fs.n >= 1, *[And(wf_views(p, fs[i]), fs[i].observeNum >= 2) for i in range(fs.n)]))]


WHY = 'the equations are compared with numpy in double precision on sampled scenes'
CONTRACTS = [
    Contract('MultiViewVisionUpdate::ConstructMeasurementFunction', 2, name='MultiViewVisionUpdate::ConstructMeasurementFunction(feature) (numeric)', params=['f', 'Hx_r'], bounded=WHY, requires=one_pre, ensures=one_post, setup=W, gen=gens.measure_one, modifies=lambda p: [p.at('Hx_r')]),
    Contract('MultiViewVisionUpdate::ConstructMeasurementFunction', 0, name='MultiViewVisionUpdate::ConstructMeasurementFunction(all) (numeric)', params=[], bounded=WHY, requires=all_pre, ensures=all_post, setup=W, gen=gens.measure_all, modifies=lambda p: [p.this.at('Hx_r'), p.this.at('Hx_rows'), p.this.at('Hx_cols')]),
]
NOTE = 'exact real arithmetic; the QR decomposition of the library is trusted'
LEVEL = 'exploration'
