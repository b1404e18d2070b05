"""Core of the VC generator: symbolic state, path exploration, loop cutting, proving."""
import time
import z3
from . import fl
from .fl import F
from .front import Ty, parse_ty

E = None            # the current engine (set by Engine.__init__)
MAXSZ = 1 << 30     # assumption: containers hold fewer than 2^30 elements


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class LoopExit(Exception):
    pass


class TooMany(Unsupported):
    pass


# ------------------------------------------------------------ z3 helpers
def isz(x):
    return isinstance(x, z3.ExprRef)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zidx(x):
    if isinstance(x, F):
        return x.z()
    return zi(x)


def lit(c):
    """python bool if c is literally true/false"""
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def band(*cs):
    out = []
    for c in cs:
        c = lit(c)
        if c is False:
            return False
        if c is True:
            continue
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        c = lit(c)
        if c is True:
            return True
        if c is False:
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(c):
    c = lit(c)
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def same_term(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, F) or isinstance(b, F):
        a, b = F.of(a), F.of(b)
        return a.p == b.p
    if isz(a) and isz(b):
        return a.eq(b)
    return False


def eqt(a, b):
    """equality of index-like terms -> bool or z3"""
    if same_term(a, b):
        return True
    if isinstance(a, F) or isinstance(b, F):
        return F.of(a).cmpeq(F.of(b))
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = z3.simplify(zi(a) - zi(b))
    if z3.is_int_value(r):
        return r.as_long() == 0
    return zi(a) == zi(b)


# ------------------------------------------------------------ values
class RefV:
    """shared_ptr value"""
    __slots__ = ('cls', 'ref')

    def __init__(self, cls, ref):
        self.cls = cls
        self.ref = ref

    def __repr__(self):
        return 'Ref<%s>(%s)' % (self.cls, self.ref)


class PtrV:
    """raw pointer to a location, None = null"""
    __slots__ = ('loc', 'null')

    def __init__(self, loc, null=False):
        self.loc = loc
        self.null = null      # bool or z3: pointer is null


class IterV:
    __slots__ = ('cont', 'pos', 'rev', 'ver')

    def __init__(self, cont, pos, rev=False, ver=None):
        self.cont = cont
        self.pos = pos
        self.rev = rev
        self.ver = ver


class M:
    """matrix value; rows/cols int or z3; get(i,j) -> F; term: abstract matrix algebra or None"""
    __slots__ = ('rows', 'cols', 'd', 'f', 'term', 'diag_of', 'shifted')

    def __init__(self, rows, cols, d=None, f=None, term=None):
        self.rows = rows
        self.cols = cols
        self.d = d
        self.f = f
        self.term = term

    def get(self, i, j):
        if self.d is not None and isinstance(i, int) and isinstance(j, int):
            return self.d[i * self.cols + j]
        if self.d is not None:
            # symbolic index into a dense matrix
            for r in range(self.rows):
                for c in range(self.cols):
                    if E.decide(band(eqt(i, r), eqt(j, c))):
                        return self.d[r * self.cols + c]
            return F.of(E.fresh_real('oob'))
        return self.f(i, j)

    def dense(self):
        return isinstance(self.rows, int) and isinstance(self.cols, int)

    def lst(self):
        if self.d is None:
            self.d = [self.f(i, j) for i in range(self.rows) for j in range(self.cols)]
        return self.d

    def __repr__(self):
        if self.d is not None:
            return 'M%dx%d%s' % (self.rows, self.cols, self.d)
        return 'M(%s,%s)%s' % (self.rows, self.cols, '' if self.term is None else self.term)


class Q:
    __slots__ = ('c',)

    def __init__(self, w, x, y, z):
        self.c = (w, x, y, z)

    def __repr__(self):
        return 'Q%s' % (self.c,)


class FnV:
    def __init__(self, node, env):
        self.node = node
        self.env = env


class Obj:
    """opaque python-side object (streams, decompositions, ...)"""

    def __init__(self, k, **kw):
        self.k = k
        self.__dict__.update(kw)


class Loc:
    __slots__ = ('path', 'idx', 'ty', 'g')

    def __init__(self, path, idx, ty, g=()):
        self.path = path
        self.idx = idx
        self.ty = ty
        self.g = g          # guards: ((container Loc, absolute position), ...)

    def sub(self, name, ty):
        return Loc(self.path + (name,), self.idx, ty, self.g)

    def __repr__(self):
        return '%s%s:%s' % ('.'.join(map(str, self.path)), list(self.idx), self.ty)

    def same(self, o):
        return self.path == o.path and len(self.idx) == len(o.idx) and all(same_term(a, b) for a, b in zip(self.idx, o.idx))


# ------------------------------------------------------------ leaves (immutable function-like stores)
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class LBase:
    def __init__(self, name, kind, sorts, alloc):
        self.name, self.kind, self.sorts, self.alloc = name, kind, sorts, alloc
        self.cache = {}

    def read(self, idx):
        k = tuple(x.get_id() if isz(x) else (fl.p_key(x.p) if isinstance(x, F) else x) for x in idx)
        v = self.cache.get(k)
        if v is None:
            v = (base_value(self.name, self.kind, self.sorts, [zidx(x) for x in idx]), idx)
            self.cache[k] = v
        return v[0]


class LUpd:
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val

    def read(self, idx):
        c = idx_eq(self.idx, idx)
        return E.pick(c, lambda: self.val, lambda: self.prev.read(idx))


class LPre:
    """for all idx extending prefix: value = fn(rest)"""

    def __init__(self, prev, pre, fn):
        self.prev, self.pre, self.fn = prev, pre, fn

    def read(self, idx):
        n = len(self.pre)
        c = idx_eq(self.pre, idx[:n])
        return E.pick(c, lambda: self.fn(idx[n:]), lambda: self.prev.read(idx))


class LVal:
    def __init__(self, val):
        self.val = val

    def read(self, idx):
        return self.val


def idx_eq(a, b):
    return band(*[eqt(x, y) for x, y in zip(a, b)])


def nan_name(nm):
    """location name behind a havocked / fresh name"""
    return nm[3:].split('!')[0] if nm.startswith('hv.') else nm


def base_value(name, kind, sorts, zx):
    def app(nm, s):
        if not sorts:
            return z3.Const(nm, s)
        return z3.Function(nm, *(list(sorts) + [s]))(*zx)
    k = kind[0]
    if k == 'int' or k == 'ref':
        v = app(name, INT)
        return RefV(kind[1], v) if k == 'ref' else v
    if k == 'bool':
        return app(name, BOOL)
    if k == 'float':
        return F(fl.p_atom_z(app(name, REAL)), app(name + '_nan', BOOL) if name in E.nanable or nan_name(name) in E.nanable else False)
    if k == 'mat':
        r, c = kind[1], kind[2]
        return M(r, c, [F(fl.p_atom_z(app('%s_%d_%d' % (name, i, j), REAL))) for i in range(r) for j in range(c)])
    if k == 'quat':
        q = Q(*[F(fl.p_atom_z(app('%s_%s' % (name, n), REAL))) for n in 'wxyz'])
        if name in E.unitfam:
            fl.declare_unit(q.c)
        return q
    if k == 'dyn':
        r = kind[1] if kind[1] >= 0 else app(name + '_rows', INT)
        c = kind[2] if kind[2] >= 0 else app(name + '_cols', INT)
        ef = z3.Function(name + '_e', *(list(sorts) + [INT, INT, REAL]))
        zs = list(zx)
        return M(r, c, f=lambda i, j: F(fl.p_atom_z(ef(*(zs + [zi(i), zi(j)])))), term=('sym', name + ('' if not zs else str(zs)), kind[1] == 1))
    if k == 'str':
        return Obj('str', z=app(name, INT))
    if k == 'ptr':
        return PtrV(None, True)
    if k == 'py':
        return Obj('uninit')
    raise Unsupported('base kind %s' % (kind,))


class Engine:
    def __init__(self, prog, budget=None):
        global E
        E = self
        self.prog = prog
        self.H = {}
        self.base = {}
        self.pc = []
        self.nfresh = 0
        self.alloc = z3.Int('alloc0')
        self.nalloc = 0
        self.ex = []
        self.qd = 0
        self.quiet = 0
        self.wlog = None
        self.frames = []          # env frames: dict var decl id -> Loc / python value
        self.inc = Inc()
        self.lite = Inc(lambda c: spec_light(c))
        self.sol = self.inc.sol
        self.stack = []
        self.obls = []
        self.kinds = {}
        self.sorts = {}
        self.loopcache = {}
        self.stats = dict(solver_s=0.0, checks=0, paths=0, z3=0, norm=0, trivial=0, cvc5=0)
        self.axioms = []
        self.depth = 0
        self.t0 = time.time()
        self.budget = budget
        self.assumptions = set()
        self.inlined = set()
        self.modular = set()
        self.hooks = []
        self.pool = None
        self.keeps_pool = None
        self.skip = ()
        self.unitfam = set()
        self.unitloops = False
        self.cutloops = False
        self.frame_ctx = None
        self.path_note = []
        self.opq = ()
        self.fn_name = ''
        self.noreal = False
        self.local_objs = {}
        self.uidty = {}
        self.enums = {}
        self.enum_keep = []
        self.itename = {}
        self.seqty = {}
        self.counts = {}
        self.keep = []
        self.nfcmp = {}
        self.path_enums = []
        self.keep = []
        self.nfcmp = {}
        self.srcs = {}
        self.from_two = {}
        self.qrs = []
        self.log = ()       # library results obtained on the current path outside loops
        self.nofork = 0
        self.cutdepth = 0
        self.nest = 0
        self.exser = 0
        self.view = None
        self.pre_view = None
        self.second_solver = True
        self.nanable = set()
        self.pc.append(self.alloc >= 1)

    # ---------------------------------------------------- names
    def fresh(self, name):
        self.nfresh += 1
        return '%s!%d' % (name, self.nfresh)

    def fresh_int(self, name='i'):
        return z3.Int(self.fresh(name))

    def fresh_bool(self, name='b'):
        return z3.Bool(self.fresh(name))

    def fresh_real(self, name='r'):
        return z3.Real(self.fresh(name))

    def fresh_val(self, kind, name, facts=True):
        v = base_value(self.fresh(name), kind, [], [])
        if facts:
            self.value_facts(v, kind)
        return v

    def value_facts(self, v, kind):
        if kind[0] == 'int' and isz(v):
            lo, hi = int_range(kind)
            self.assume(z3.And(v >= lo, v <= hi))
        elif kind[0] == 'ref' and isz(v.ref):
            self.assume(z3.And(v.ref >= 0, v.ref < self.alloc_now()))
        elif kind[0] == 'dyn':
            for d in (v.rows, v.cols):
                if isz(d):
                    self.assume(z3.And(d >= 0, d < MAXSZ))

    def alloc_now(self):
        return self.alloc + self.nalloc if self.nalloc else self.alloc

    def new_ref(self, cls):
        r = self.alloc_now()
        self.nalloc += 1
        return RefV(cls, r)

    # ---------------------------------------------------- snapshot
    def snap(self):
        return (dict(self.H), [dict(f) for f in self.frames], list(self.pc), self.nfresh, self.alloc, self.nalloc, self.depth, self.qd, list(self.path_note), list(self.path_enums), self.opq, self.log)

    def restore(self, s):
        self.H = dict(s[0])
        self.frames = [dict(f) for f in s[1]]
        self.pc = list(s[2])
        self.nfresh, self.alloc, self.nalloc, self.depth, self.qd = s[3:8]
        self.path_note = list(s[8])
        self.path_enums = list(s[9])
        self.opq = s[10]
        self.log = s[11]

    # ---------------------------------------------------- solver
    def sync(self):
        self.inc.sync(self.axioms, self.pc)

    def check_time(self):
        if self.budget and time.time() - self.t0 > self.budget:
            raise Unsupported('time budget of %ds used up' % self.budget)

    def sat(self, c, rlimit=400000, ms=1500):
        """'sat' / 'unsat' / 'unknown' of pc /\\ c"""
        self.check_time()
        c = lit(c)
        if c is False:
            return 'unsat'
        t = time.time()
        self.sync()
        self.sol.set('timeout', ms)
        self.sol.push()
        if c is not True:
            self.sol.add(c)
            for l in lemmas([c]):
                self.sol.add(l)
        r = self.sol.check()
        self.sol.pop()
        self.stats['solver_s'] += time.time() - t
        self.stats['checks'] += 1
        return 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'

    def entails(self, c, ms=1500):
        c = lit(c)
        if isinstance(c, bool):
            return c
        return self.sat(z3.Not(c), ms=ms) == 'unsat'

    def feasible(self):
        return self.sat(True) != 'unsat'

    # ---------------------------------------------------- path exploration
    def assume(self, c):
        c = lit(c)
        if c is True:
            return
        if self.qd:
            return
        if c is False:
            raise Infeasible()
        for l in lemmas([c]):
            self.pc.append(l)
        self.pc.append(c)

    def decide(self, c):
        c = lit(c)
        if isinstance(c, bool):
            return c
        c2 = lit(z3.simplify(c)) if c.num_args() <= 4 else c
        if isinstance(c2, bool):
            return c2
        if self.qd:
            raise Unsupported('branch under a quantifier: %s' % c)
        ex = self.ex[-1] if self.ex else None
        if ex is None:
            r = self.sat(c) != 'unsat', self.sat(z3.Not(c)) != 'unsat'
            if r == (True, True):
                raise Unsupported('branch outside exploration: %s' % c)
            if r == (False, False):
                raise Infeasible()
            return r[0]
        if ex.pos < len(ex.trace):
            b, forced = ex.trace[ex.pos]
            ex.pos += 1
            if forced == 'nofork':
                from .ev import NeedFork
                raise NeedFork()
            if not forced:
                self.pc.append(c if b else z3.Not(c))
                self.add_lemmas(c)
            return b
        t = self.sat(c) != 'unsat'
        f = self.sat(z3.Not(c)) != 'unsat'
        if not t and not f:
            raise Infeasible()
        if t and f and self.nofork:
            from .ev import NeedFork
            ex.trace = ex.trace + [(None, 'nofork')]
            ex.pos += 1
            raise NeedFork()
        if t and f:
            ex.pending.append(ex.trace + [(False, False)])
            if len(ex.pending) > 4000:
                raise TooMany('too many paths')
            ex.trace = ex.trace + [(True, False)]
            ex.pos += 1
            self.pc.append(c)
            self.add_lemmas(c)
            return True
        ex.trace = ex.trace + [(t, True)]
        ex.pos += 1
        return t

    def add_lemmas(self, c):
        for l in lemmas([c]):
            self.pc.append(l)

    def pick(self, c, a, b):
        """value if c then a() else b(): entailed -> that side; otherwise ite (scalars) or a fork"""
        c = lit(c)
        if isinstance(c, bool):
            return a() if c else b()
        if not self.qd:
            c2 = self.try_entail(c)
            if c2 is not None:
                return a() if c2 else b()
            va = a()
            if isinstance(va, (M, Q)) or not isinstance(va, (int, bool, F, RefV)) and not isz(va):
                return va if self.decide(c) else b()
            return ite(c, va, b())
        return ite(c, a(), b())

    def try_entail(self, c):
        """True/False if decided by the path condition; results replayed along the trace"""
        ex = self.ex[-1] if self.ex else None
        if ex is not None and ex.pos < len(ex.trace):
            b, forced = ex.trace[ex.pos]
            ex.pos += 1
            return b
        if self.sat(z3.Not(c)) == 'unsat':
            r = True
        elif self.sat(c) == 'unsat':
            r = False
        else:
            r = None
        if ex is not None:
            ex.trace = ex.trace + [(r, True)]
            ex.pos += 1
        return r

    def ent(self, c):
        """entailment test usable inside execution (recorded in the trace)"""
        c = lit(c)
        if isinstance(c, bool):
            return c
        if self.qd:
            return False
        return self.try_entail(c) is True

    def explore(self, thunk, on_end, limit=600):
        s = self.snap()
        pending = [[]]
        n = 0
        self.exser += 1
        ser = self.exser
        while pending:
            tr = pending.pop()
            self.restore(s)
            ex = Explorer(tr, pending)
            ex.ser = ser
            self.ex.append(ex)
            depth = len(self.ex)
            out = None
            try:
                try:
                    v = thunk()
                    out = ('normal', v)
                except ReturnEx as r:
                    out = ('return', r.v)
                except BreakEx:
                    out = ('break', None)
                except ContinueEx:
                    out = ('continue', None)
                except LoopExit:
                    out = ('exit', None)
                except Infeasible:
                    out = None
                if ex.pos < len(ex.trace):
                    raise Unsupported('path replay diverged')
                if out is not None:
                    n += 1
                    self.stats['paths'] += 1
                    on_end(*out)
            except Infeasible:
                pass
            finally:
                del self.ex[depth - 1:]
            if n > limit:
                raise TooMany('more than %d paths' % limit)
        self.restore(s)
        return n

    def replaying(self):
        return any(x.pos < len(x.trace) for x in self.ex)

    # ---------------------------------------------------- memory
    def kind_of(self, loc_ty):
        return kind_of(loc_ty)

    def leaf(self, path, sorts=None, kind=None, H=None):
        H = self.H if H is None else H
        l = H.get(path)
        if l is not None:
            return l
        l = self.base.get(path)
        if l is None:
            if kind is None:
                kind, sorts = self.kinds[path], self.sorts[path]
            nm = '.'.join(map(str, path))
            l = LBase(nm, kind, sorts, None)
            self.base[path] = l
            self.kinds[path] = kind
            self.sorts[path] = sorts
            self.base_axioms(nm, kind, sorts, z3.Int('alloc0'))
            self.size_axioms(path, nm, sorts)
        return l

    def size_axioms(self, path, nm, sorts, late=True):
        """container sizes of an arbitrary store are not negative"""
        if path[-1] not in ('#hi', '#size'):
            return
        xs = [z3.Const('x%d' % i, s) for i, s in enumerate(sorts)]

        def fn(n):
            return z3.Int(n) if not xs else z3.Function(n, *(list(sorts) + [INT]))(*xs)
        v = fn(nm)
        if path[-1] == '#hi':
            ty = self.seqty.get(path[:-1])
            if ty is None:
                return
            if ty.k == 'deque':
                lo = path[:-1] + ('#lo',)
                self.reg(lo, ('int', 64, True), list(sorts))
                b = self.leaf(lo, H={})
                if not isinstance(b, LBase):
                    return
                lo = fn(b.name)
                f = z3.And(v >= lo, v < lo + MAXSZ)
            else:
                f = z3.And(v >= 0, v < MAXSZ)
        else:
            f = z3.And(v >= 0, v < MAXSZ)
        if xs:
            f = z3.ForAll(xs, f, patterns=[v])
        if not late:
            self.assume(f)
        elif self.ex:
            self.late_axiom(f)
        else:
            self.pc.append(f)

    def base_axioms(self, nm, kind, sorts, alloc):
        """well-formedness facts of an arbitrary store; recorded as permanent axioms"""
        if kind[0] not in ('int', 'ref', 'dyn'):
            return
        xs = [z3.Const('x%d' % i, s) for i, s in enumerate(sorts)]
        facts = []

        def add(nm, lo, hi):
            if not xs:
                v = z3.Int(nm)
                facts.append(z3.And(v >= lo, v <= hi))
            else:
                v = z3.Function(nm, *(list(sorts) + [INT]))(*xs)
                facts.append(z3.ForAll(xs, z3.And(v >= lo, v <= hi), patterns=[v]))
        if kind[0] == 'int':
            lo, hi = int_range(kind)
            add(nm, lo, hi)
        elif kind[0] == 'ref':
            add(nm, 0, alloc - 1)
        else:
            if kind[1] < 0:
                add(nm + '_rows', 0, MAXSZ)
            if kind[2] < 0:
                add(nm + '_cols', 0, MAXSZ)
        for f in facts:
            if self.ex:
                self.late_axiom(f)
            else:
                self.pc.append(f)

    def late_axiom(self, f):
        # valid in every path: put on the current path, and re-added after restore
        self.axioms.append(f)

    def reg(self, path, kind, sorts):
        if path not in self.kinds:
            self.kinds[path] = kind
            self.sorts[path] = list(sorts)

    def rd(self, path, idx, kind, H=None):
        if path not in self.kinds:
            self.reg(path, kind, [REAL if isinstance(x, F) else INT for x in idx])
        return self.leaf(path, H=H).read(idx)

    def wr(self, path, idx, kind, val):
        if path not in self.kinds:
            self.reg(path, kind, [REAL if isinstance(x, F) else INT for x in idx])
        if self.wlog is not None:
            self.wlog.append((path, tuple(idx)))
        if not idx:
            self.H[path] = LVal(val)
        else:
            self.H[path] = LUpd(self.leaf(path), tuple(idx), val)

    def wr_pre(self, path, pre, kind, sorts, fn):
        """update all entries under a prefix"""
        self.reg(path, kind, sorts)
        if self.wlog is not None:
            self.wlog.append((path, tuple(pre)))
        if not pre and not sorts:
            self.H[path] = LVal(fn(()))
        else:
            self.H[path] = LPre(self.leaf(path), tuple(pre), fn)

    # ---------------------------------------------------- obligations
    def oblige(self, name, f, where=None, kind='safety'):
        if self.quiet or self.qd:
            self.assume_formula(f)
            return True
        if not self.replaying():
            from . import spec
            t = time.time()
            st, info = self.prove(f)
            rec = dict(name=name, fn=self.fn_name, kind=kind, status=st, info=info, t=time.time() - t, where=where, path=list(self.path_note)[-12:])
            self.obls.append(rec)
        if kind == 'frame' or kind == 'post' and big_value(f):
            return True
        self.assume_formula(f)
        return True

    def assume_formula(self, f):
        from . import spec
        f = spec.call(f)
        if isinstance(f, spec.FOpq):
            self.opq = self.opq + (f,)
            return
        if isinstance(f, spec.FAnd):
            for x in f.fs:
                self.assume_formula(x)
            return
        if isinstance(f, spec.FImp) and isinstance(f.b, spec.FOpq):
            a = spec.to_z3(f.a)
            if a is True or not isinstance(a, bool) and self.sat(z3.Not(a)) == 'unsat':
                self.assume_formula(f.b)
            elif a is not False:
                g = f.b
                self.opq = self.opq + (spec.FOpq(g.name, g.lo, g.hi, g.reads, g.rel, a),)
            return
        try:
            z = spec.to_z3(f)
        except Unsupported:
            return
        if z is False:
            raise Infeasible()
        self.assume(z)

    def prove(self, f):
        """-> (status, info); status ok / fail / timeout"""
        from . import spec
        return spec.prove(self, f, self.prove_timeout)

    prove_timeout = 10000

    def prove_ms(self, f, ms):
        from . import spec
        ss, self.second_solver = self.second_solver, False
        try:
            return spec.prove(self, f, ms)
        finally:
            self.second_solver = ss


def big_value(f):
    """equality of matrices or quaternions: of no use to later obligations, costly as a solver term"""
    return isinstance(getattr(f, 'a', None), (M, Q)) and hasattr(f, 'b')


def spec_light(c):
    from . import spec
    return spec.is_light(c)


class Inc:
    """incremental solver following the path condition"""

    def __init__(self, keep=None):
        self.sol = z3.Solver()
        self.sol.set('smt.mbqi', False)
        self.stack = []
        self.ax = []             # axiom k was added at level ax[k]
        self.keep = keep

    def sync(self, axioms, pc):
        st = self.stack
        n, m = 0, min(len(st), len(pc))
        while n < m and st[n] is pc[n]:
            n += 1
        if len(st) > n:
            self.sol.pop(len(st) - n)
            del st[n:]
            self.ax = [l if l is not None and l <= n else None for l in self.ax]
        for c in pc[n:]:
            self.sol.push()
            if self.keep is None or self.keep(c):
                self.sol.add(c)
            st.append(c)
        while len(self.ax) < len(axioms):
            self.ax.append(None)
        for k, l in enumerate(self.ax):
            if l is None:
                self.sol.add(axioms[k])
                self.ax[k] = len(st)

    def refutes(self, axioms, pc, z, ms):
        self.sync(axioms, pc)
        self.sol.set('timeout', ms)
        self.sol.push()
        if z is not False:
            self.sol.add(z3.Not(z))
        r = self.sol.check()
        self.sol.pop()
        return r == z3.unsat


class Explorer:
    def __init__(self, trace, pending):
        self.trace = trace
        self.pending = pending
        self.pos = 0


def int_range(kind):
    bits, signed = kind[1], kind[2]
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1


def ite(c, a, b):
    c = lit(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, RefV):
        return RefV(a.cls or b.cls, ite(c, a.ref, b.ref))
    if isinstance(a, F) or isinstance(b, F):
        a, b = F.of(a), F.of(b)
        if a.p == b.p and a.nf is False and b.nf is False:
            return a
        nf = False
        if a.nf is not False or b.nf is not False:
            nf = z3.If(c, zb(a.nf), zb(b.nf))
        return F(fl.p_atom_z(z3.If(c, a.z(), b.z())), nf)
    if isinstance(a, M):
        if a.dense() and b.dense():
            return M(a.rows, a.cols, [ite(c, x, y) for x, y in zip(a.lst(), b.lst())])
        return M(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), f=lambda i, j: ite(c, a.get(i, j), b.get(i, j)),
                 term=a.term if a.term is not None and a.term == b.term else None)
    if isinstance(a, Q):
        return Q(*[ite(c, x, y) for x, y in zip(a.c, b.c)])
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, (int,)) or isz(a):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.If(c, zi(a), zi(b))
    if isinstance(a, Obj) and a.k == 'str' and isinstance(b, Obj) and b.k == 'str':
        return Obj('str', z=ite(c, a.z, b.z))
    raise Unsupported('ite of %r / %r' % (type(a), type(b)))


def kind_of(t):
    k = t.k
    if k == 'int':
        return ('int',) + t.a
    if k == 'bool':
        return ('bool',)
    if k == 'float':
        return ('float',)
    if k == 'mat':
        if t.a[0] < 0 or t.a[1] < 0:
            return ('dyn',) + t.a
        return ('mat',) + t.a
    if k == 'quat':
        return ('quat',)
    if k == 'shared':
        return ('ref', t.a[0].a[0] if t.a[0].k == 'class' else str(t.a[0]))
    if k == 'ptr':
        return ('py',)
    if k == 'string':
        return ('str',)
    if k == 'class':
        if is_enum(t.a[0]):
            return ('int', 32, False)
        return None
    if k in ('iter', 'lambda', 'other', 'eigen', 'ilist'):
        return ('py',)
    return None


_enum_cache = {}


def is_enum(name):
    if name not in _enum_cache:
        r = False
        for n in E.prog.decl.values():
            if n.get('kind') == 'EnumDecl' and n.get('_q') and (n['_q'] == name):
                r = True
                break
        _enum_cache[name] = r
    return _enum_cache[name]


def layout(t):
    """[(subpath, extra index sorts, kind)] of a type"""
    k = kind_of(t)
    if k is not None:
        return [((), (), k)]
    if t.k == 'class':
        rec = E.prog.records.get(t.a[0])
        if rec is None:
            return [((), (), ('py',))]
        out = []
        for f, ts, node in rec.fields:
            ft = field_ty(t.a[0], ts)
            for sp, xs, kk in layout(ft):
                out.append(((f,) + sp, xs, kk))
        return out
    if t.k in ('vector', 'deque', 'array'):
        out = [(('#lo',), (), ('int', 64, True)), (('#hi',), (), ('int', 64, True))]
        for sp, xs, kk in layout(t.a[0]):
            out.append((('[]',) + sp, (INT,) + xs, kk))
        return out
    if t.k in ('umap', 'map', 'set', 'uset'):
        ks = REAL if t.a[0].k == 'float' else INT
        out = [(('#dom',), (ks,), ('bool',)), (('#size',), (), ('int', 64, True))]
        if t.k in ('umap', 'map'):
            for sp, xs, kk in layout(t.a[1]):
                out.append((('{}',) + sp, (ks,) + xs, kk))
        return out
    if t.k == 'pair':
        out = []
        for nm, tt in zip(('first', 'second'), t.a):
            for sp, xs, kk in layout(tt):
                out.append(((nm,) + sp, xs, kk))
        return out
    return [((), (), ('py',))]


_ftc = {}


def field_ty(cls, ts):
    """type of a field; nested class names are resolved in the class scope"""
    t = parse_ty(ts)
    return resolve(t, cls)


def resolve(t, cls):
    if t.k == 'class':
        n = t.a[0]
        if n in E.prog.records or is_enum(n):
            return t
        parts = (cls or '').split('::')
        for i in range(len(parts), 0, -1):
            q = '::'.join(parts[:i] + [n])
            if q in E.prog.records or is_enum(q):
                return Ty('class', q)
        return t
    if t.k in ('vector', 'deque', 'shared', 'ptr', 'ref', 'set', 'uset'):
        return Ty(t.k, resolve(t.a[0], cls))
    if t.k in ('umap', 'map', 'pair'):
        return Ty(t.k, resolve(t.a[0], cls), resolve(t.a[1], cls))
    return t


# ------------------------------------------------------------ arithmetic lemmas for uninterpreted mul/inv/sqrt
_lemcache = {}


def lemmas(fs):
    out = []
    for f in fs:
        if isinstance(f, bool):
            continue
        k = f.get_id()
        ls = _lemcache.get(k)
        if ls is None:
            ls = []
            seen = set()
            todo = [f]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_quantifier(x):
                    continue
                if z3.is_app(x):
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                        nm = d.name()
                        if nm == 'mul':
                            a, b = x.arg(0), x.arg(1)
                            if has_var(x):
                                continue
                            if a.eq(b):
                                ls.append(x >= 0)
                                ls.append((x == 0) == (a == 0))
                            else:
                                ls.append(z3.Implies(z3.And(a > 0, b > 0), x > 0))
                                ls.append(z3.Implies(z3.And(a >= 0, b >= 0), x >= 0))
                                ls.append(z3.Implies(z3.Or(a == 0, b == 0), x == 0))
                        elif nm == 'sqrt' and not has_var(x):
                            ls.append(x >= 0)
                            ls.append((x.arg(0) > 0) == (x > 0))    # sqrt of a negative number is taken as 0 (and flagged as not finite)
                            ls.append(z3.Implies(x.arg(0) >= 0, fl.MUL(x, x) == x.arg(0)))
                        elif nm == 'inv' and not has_var(x):
                            ls.append(z3.Implies(x.arg(0) > 0, x > 0))
                            ls.append(z3.Implies(x.arg(0) < 0, x < 0))
                        elif nm == 'fabs' and not has_var(x):
                            ls.append(x >= 0)
                            ls.append(z3.Or(x == x.arg(0), x == -x.arg(0)))
                    todo.extend(x.children())
            _lemcache[k] = ls
            _keep.append(f)
        out.extend(ls)
    return out


_keep = []
_hv = {}


def has_var(x):
    k = x.get_id()
    r = _hv.get(k)
    if r is None:
        if z3.is_var(x):
            r = True
        else:
            r = any(has_var(c) for c in x.children())
        _hv[k] = r
        _keep.append(x)
    return r
