"""P12: marginalising a frame deletes exactly its rows and columns."""
from .lib import *
from .p11 import IMU, W, sel, pre_state, sizes, square
from . import gens

OLDEST, NEWEST, SUBNEW, NO = 1, 2, 3, 4


def reduced(p, q):
    A, B = p.this.covariance, q.this.covariance
    n = A.rows
    pol = p.this.margPolicy
    first = IMU + 6 * p.fm.extrinsics.n         # column of the oldest frame

    def without(k):
        m = lambda i: sel(i < k, i, i + 6)
        return And(B.rows == n - 6, B.cols == n - 6, lambda: All(0, n - 6, lambda i: All(0, n - 6, lambda j: Eq(B.get(i, j), A.get(m(i), m(j))))))
    return [('succeeds for every policy', Iff(q.ret, Or(*[Eq(pol, k) for k in (OLDEST, NEWEST, SUBNEW, NO)]))),
            ('oldest frame: exactly its six rows and columns are gone', Imp(Eq(pol, OLDEST), lambda: without(first))),
            ('second newest frame: exactly its six rows and columns are gone', Imp(Eq(pol, SUBNEW), lambda: without(n - 12))),
            ('newest frame: exactly its six rows and columns are gone', Imp(Eq(pol, NEWEST), lambda: without(n - 6))),
            ('no frame to drop: nothing changes', Imp(Eq(pol, NO), lambda: Eq(B, A)))]


def symmetric(p):
    A = p.this.covariance
    return All(0, A.rows, lambda i: All(0, A.rows, lambda j: Eq(A.get(i, j), A.get(j, i))))


def pre(p):
    return pre_state(p)[1:] + [('there is a frame', p.fm.frames.n >= 1), ('the covariance covers every camera and frame', lambda: square(p, IMU + sizes(p) + 6)), ('the covariance is symmetric', lambda: symmetric(p)),
                               ('the second newest frame exists when it is to be dropped', Imp(Eq(p.this.margPolicy, SUBNEW), p.fm.frames.n >= 2))]


CONTRACTS = [
    Contract('MultiViewVisionUpdate::ReduceCameraCovariance', ensures=lambda p, q: reduced(p, q) + [('a symmetric covariance stays symmetric', lambda: symmetric(q))], gen=gens.reduce, setup=W, modular=True,
             requires=pre, modifies=lambda p: [p.this.at('covariance')]),
]
NOTE = 'exact real arithmetic: the entries are copied, no rounding is involved'
