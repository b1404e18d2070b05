"""Specification language: the same contract text is read over the symbolic state of the
VC generator and over concrete states dumped from the real code."""
import math, time
from fractions import Fraction
import z3
from . import eng, fl
from .eng import *
from .fl import F
from .front import Ty

CONC = False          # concrete mode
TOL = 1e-3


# ------------------------------------------------------------ formulas (lazy)
class Fm:
    pass


class FAnd(Fm):
    def __init__(self, fs):
        self.fs = fs


class FOr(Fm):
    def __init__(self, fs):
        self.fs = fs


class FNot(Fm):
    def __init__(self, f):
        self.f = f


class FImp(Fm):
    def __init__(self, a, b):
        self.a, self.b = a, b


class FAll(Fm):
    """for all integers lo <= x < hi (None: unbounded) of the body"""

    def __init__(self, lo, hi, fn, sort='int', dom=None):
        self.lo, self.hi, self.fn, self.sort, self.dom = lo, hi, fn, sort, dom


class FEx(Fm):
    def __init__(self, lo, hi, fn):
        self.lo, self.hi, self.fn = lo, hi, fn


class FEq(Fm):
    def __init__(self, a, b, tol):
        self.a, self.b, self.tol = a, b, tol


class FOpq(Fm):
    """named relation rel(*reads(i)) for all lo <= i < hi (lo None: just once, reads takes no index).
    Assumed: remembered, not given to the solver.  To prove: either a remembered instance of the same relation reads exactly
    the same values, or the relation itself is proved."""

    def __init__(self, name, lo, hi, reads, rel, guard=None):
        self.name, self.lo, self.hi, self.reads, self.rel, self.guard = name, lo, hi, reads, rel, guard


class FLbl(Fm):
    def __init__(self, name, f):
        self.name, self.f = name, f


def Opq(name, reads, rel):
    return FOpq(name, None, None, reads, rel)


def Quiet(name, thunk):
    """a formula (under a name of its own) that is proved, but not handed to the solver when assumed"""
    return FOpq(name, None, None, lambda: [], thunk)


def AllOpq(lo, hi, name, reads, rel):
    return FOpq(name, lo, hi, reads, rel)


def value_key(v):
    """syntactic identity of a value (None: cannot be told)"""
    v = unview(v)
    if isinstance(v, F):
        nf = v.nf
        return ('f', fl.p_key(v.p), nf if isinstance(nf, bool) else nf.get_id())
    if isinstance(v, Q):
        return ('q',) + tuple(value_key(c) for c in v.c)
    if isinstance(v, M):
        if v.dense():
            return ('m', v.rows, v.cols) + tuple(value_key(c) for c in v.lst())
        from . import egn
        t = egn.term_of(v)
        if t is None:
            return entries_key(v)
        d = tuple(x if isinstance(x, int) else z3.simplify(x).get_id() for x in (v.rows, v.cols))
        return ('t', t.key()) + d
    if isinstance(v, RefV):
        return ('r', v.ref if isinstance(v.ref, int) else v.ref.get_id())
    if isz(v):
        v = z3.simplify(v)
        eng.E.keep.append(v)
        return ('z', v.get_id())
    if isinstance(v, (int, bool)):
        return ('c', v)
    return None


def entries_key(v):
    """by the formula of the general entry"""
    E = eng.E
    i, j = z3.Int('general row'), z3.Int('general column')
    n = len(E.pc)
    E.qd += 1
    try:
        es = [v.get(r, j) for r in range(v.rows)] if isinstance(v.rows, int) else [v.get(i, j)]
    except Unsupported:
        return None
    finally:
        E.qd -= 1
        del E.pc[n:]
    ks = [value_key(e) for e in es]
    d = tuple(x if isinstance(x, int) else z3.simplify(x).get_id() for x in (v.rows, v.cols))
    return None if None in ks else ('g',) + tuple(ks) + d


def prove_opq(E, f, ms, d):
    if f.lo is not None:
        x = z3.Int(E.fresh('sk'))
        keep = list(E.pc)
        try:
            try:
                E.assume(z3.And(zi(f.lo) <= x, x < zi(f.hi)))
            except Infeasible:
                return 'ok', 'trivial'
            if E.sat(True, ms=800) == 'unsat':
                return 'ok', 'z3'
            last = z3.simplify(zi(f.hi) - 1)

            def go():
                # the last index apart from the others
                if E.decide(x == last):
                    return prove_opq1(E, f, last, ms, d)
                return prove_opq1(E, f, x, ms, d)
            return forked(E, go)
        finally:
            E.pc = keep
    return forked(E, lambda: prove_opq1(E, f, None, ms, d))


def prove_opq1(E, f, x, ms, d):
    vs = f.reads() if x is None else f.reads(x)
    key = [value_key(v) for v in vs]
    near = []
    for g in reversed(E.opq):
        if g.name != f.name or g.lo is not None and x is None:
            continue
        if g.guard is not None and E.sat(z3.Not(g.guard)) != 'unsat':
            continue
        if g.lo is not None and E.sat(z3.Not(z3.And(zi(g.lo) <= x, x < zi(g.hi)))) != 'unsat':
            continue
        ws = g.reads() if g.lo is None else g.reads(x)
        k2 = [value_key(v) for v in ws]
        bad = [i for i, (a, b) in enumerate(zip(key, k2)) if a is None or a != b]
        if not bad:
            E.stats['norm'] += 1
            return 'ok', 'same instance of the relation'
        near.append((len(bad), bad, ws))
        if OPQ_DEBUG:
            print('      opq %s: differs at %s' % (f.name, bad))
    for _, bad, ws in near[:3]:
        # the values read are equal under the path condition
        if all(prove_rec(E, FEq(vs[i], ws[i], 0), 1000, d + 1)[0] == 'ok' for i in bad):
            return 'ok', 'equal to an instance of the relation'
    return prove_rec(E, f.rel(*vs), ms, d + 1)


OPQ_DEBUG = bool(__import__('os').environ.get('VC_OPQ'))


def call(f):
    return f() if callable(f) and not isinstance(f, Fm) else f


def And(*fs):
    return FAnd(list(fs))


def Or(*fs):
    return FOr(list(fs))


def Not(f):
    return FNot(f)


def Imp(a, b):
    """b may be a thunk (evaluated only when a is not false)"""
    return FImp(a, b)


def Iff(a, b):
    return FAnd([FImp(a, b), FImp(b, a)])


def Cond(c, a, b):
    return FAnd([FImp(c, a), FImp(FNot(c), b)])


def All(lo, hi, fn):
    return FAll(lo, hi, fn)


def Ex(lo, hi, fn):
    return FEx(lo, hi, fn)


def AllKeys(maps, fn):
    """for every possible key (concretely: every key of the given maps)"""
    return FAll(None, None, fn, dom=maps)


def AllRefs(cls, fn, state=None):
    return FAll(None, None, fn, sort='ref:' + cls, dom=state)


def Eq(a, b, tol=None):
    return FEq(a, b, tol)


def Same(a, b):
    """exact equality (also for floating point values that are only copied)"""
    return FEq(a, b, 0)


def If(c, a, b):
    """value-level conditional"""
    if CONC:
        return a if holds(c)[0] else b
    z = to_z3(c)
    return ite(z, call(a), call(b))


# ------------------------------------------------------------ symbolic -> z3
def parts(v):
    """scalar components of a value"""
    if isinstance(v, M):
        return [v.rows, v.cols] + v.lst() if v.dense() else None
    if isinstance(v, Q):
        return list(v.c)
    return [v]


def eq_z3(a, b):
    a, b = unview(a), unview(b)
    if isinstance(a, M) or isinstance(b, M):
        if a.dense() and b.dense():
            if (a.rows, a.cols) != (b.rows, b.cols):
                return False
            return band(*[eq_z3(x, y) for x, y in zip(a.lst(), b.lst())])
        i, j = z3.Int(eng.E.fresh('qi')), z3.Int(eng.E.fresh('qj'))
        eng.E.qd += 1
        try:
            body = eq_z3(a.get(i, j), b.get(i, j))
        finally:
            eng.E.qd -= 1
        rng = z3.And(i >= 0, i < zi(a.rows), j >= 0, j < zi(a.cols))
        return band(eqt(a.rows, b.rows), eqt(a.cols, b.cols), z3.ForAll([i, j], z3.Implies(rng, zb(body))))
    if isinstance(a, Q):
        return band(*[eq_z3(x, y) for x, y in zip(a.c, b.c)])
    if isinstance(a, RefV) or isinstance(b, RefV):
        return eqt(ref_of(a), ref_of(b))
    if isinstance(a, F) or isinstance(b, F):
        a, b = F.of(a), F.of(b)
        nf = True
        if a.nf is not False or b.nf is not False:
            # equal means: both finite and equal, or both non-finite
            same = band(bnot(a.nf), bnot(b.nf), F(a.p).cmpeq(F(b.p)))
            return bor(same, band(a.nf, b.nf))
        return F(a.p).cmpeq(F(b.p))
    if isinstance(a, Obj) and a.k == 'str':
        return str_same(a, b)
    if isinstance(a, bool) or isinstance(b, bool) or isz(a) and z3.is_bool(a):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return b if a else bnot(b)
        if isinstance(b, bool):
            return a if b else bnot(a)
        return a == b
    if isinstance(a, PtrV):
        return a.loc is not None and b.loc is not None and a.loc.same(b.loc)
    return eqt(a, b)


def str_same(a, b):
    pa, pb = getattr(a, 'parts', None), getattr(b, 'parts', None)
    if pa is not None and pb is not None:
        return norm_parts(pa) == norm_parts(pb)
    raise Unsupported('string equality')


def norm_parts(p):
    out = []
    for x in p:
        if isinstance(x, tuple):
            if x[0] == 'num' and isinstance(x[1], int):
                x = str(x[1])
            else:
                x = (x[0], str(x[1]))
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return tuple(out)


def ref_of(a):
    if isinstance(a, RefV):
        return a.ref
    if isinstance(a, Obj):
        return 0
    return a


def to_z3(f):
    """z3 formula / bool (used for assumptions and for non-split goals)"""
    f = call(f)
    if isinstance(f, bool) or isz(f):
        return lit(f)
    if isinstance(f, FLbl):
        return to_z3(f.f)
    if isinstance(f, FAnd):
        return band(*[to_z3(x) for x in f.fs])
    if isinstance(f, FOr):
        return bor(*[to_z3(x) for x in f.fs])
    if isinstance(f, FNot):
        return bnot(to_z3(f.f))
    if isinstance(f, FImp):
        a = to_z3(f.a)
        if a is False:
            return True
        b = to_z3(f.b)
        if a is True:
            return b
        if b is True:
            return True
        return z3.Implies(a, zb(b))
    if isinstance(f, FEq):
        return eq_z3(f.a, f.b)
    if isinstance(f, (FAll, FEx)):
        E = eng.E
        if isinstance(f, FAll) and f.sort == 'real':
            x = z3.Real(E.fresh('q'))
            arg = F(fl.p_atom_z(x))
        else:
            x = z3.Int(E.fresh('q'))
            arg = x
        if isinstance(f.lo, int) and isinstance(f.hi, int) and f.hi - f.lo <= 8:
            fs = [to_z3(f.fn(i)) for i in range(f.lo, f.hi)]
            return band(*fs) if isinstance(f, FAll) else bor(*fs)
        E.qd += 1
        BOUND.append(x)
        try:
            body = to_z3(f.fn(arg))
        finally:
            E.qd -= 1
            BOUND.pop()
        rng = bounds_of(f, x)
        if isinstance(f, FAll):
            if body is True:
                return True
            if rng is False:
                return True
            return forall(x, z3.Implies(zb(rng), zb(body)))
        return z3.Exists([x], z3.And(zb(rng), zb(body)))
    if isinstance(f, View):
        return to_z3(unview(f))
    raise Unsupported('formula %r' % (f,))


def contains(t, x, memo):
    k = t.get_id()
    r = memo.get(k)
    if r is None:
        if t.eq(x):
            r = True
        elif z3.is_quantifier(t):
            r = contains(t.body(), x, memo)
        elif z3.is_app(t):
            r = any(contains(c, x, memo) for c in t.children())
        else:
            r = False
        memo[k] = r
    return r


def trigger_terms(b, x):
    """[(application, offset)] of uninterpreted applications with an argument x + offset"""
    memo, seen, out = {}, set(), []

    def go(t, inq):
        k = t.get_id()
        if k in seen or not contains(t, x, memo):
            return
        seen.add(k)
        if z3.is_quantifier(t):
            go(t.body(), True)
            return
        if not z3.is_app(t):
            return
        for c in t.children():
            go(c, inq)
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() not in ('mul', 'inv', 'sqrt'):
            if has_var(t):
                return
            for a in t.children():
                if a.sort() == x.sort() and contains(a, x, memo):
                    d = z3.simplify(a - x) if not a.eq(x) else None
                    if d is None:
                        out.append((t, None))
                    elif not contains(d, x, {}):
                        if z3.is_int_value(d) and d.as_long() == 0:
                            d = None
                        out.append((t, d))
    go(b, False)
    return out


BOUND = []


def ite_terms(t, out, seen):
    k = t.get_id()
    if k in seen:
        return
    seen.add(k)
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
            out.append(t)
            return
        for c in t.children():
            ite_terms(c, out, seen)


def has_any(t, xs):
    return any(contains(t, x, {}) for x in xs)


def name_ites(ts, bound):
    """definitions of fresh constants for the conditionals inside trigger terms: [(ite, const)]"""
    out, seen = [], set()
    for t in ts:
        ite_terms(t, out, seen)
    sub = []
    for t in out:
        if has_var(t) or has_any(t, bound):
            continue
        key = t.get_id()
        r = eng.E.itename.get(key)
        if r is None:
            c = z3.Const(eng.E.fresh('if'), t.sort())
            r = eng.E.itename[key] = (t, c)
        t, c = r
        d = c == t
        if not any(y.eq(d) for y in eng.E.pc[-400:]):
            eng.E.pc.append(d)
        sub.append((t, c))
    return sub


def no_ite(t):
    out = []
    ite_terms(t, out, set())
    return not out


def forall(x, b):
    """universally quantified formula; one copy per index offset so that every application is a usable trigger"""
    if x.sort() == z3.RealSort():
        return z3.ForAll([x], b)
    ts = trigger_terms(b, x)
    if any(not no_ite(t) for t, d in ts):
        sub = name_ites([t for t, d in ts], BOUND + [x])
        if sub:
            b = z3.substitute(b, *sub)
            ts = trigger_terms(b, x)
        ts = [(t, d) for t, d in ts if no_ite(t)]
    offs = []
    for t, d in ts:
        nm = t.decl().name()
        if not any((d is None and o is None) or (d is not None and o is not None and o.eq(d)) for _, o, _ in offs) and not any(nm == n_ for n_, _, _ in offs):
            offs.append((nm, d, t))
    if not offs:
        return z3.ForAll([x], b)
    out = []
    for nm, d, t in offs[:4]:
        if d is None:
            v, bb, tt = x, b, t
        else:
            v = z3.Int(eng.E.fresh('qs'))
            bb = z3.substitute(b, (x, v - d))
            bb = norm_index(bb)
            tt = norm_index(z3.substitute(t, (x, v - d)))
        try:
            out.append(z3.ForAll([v], bb, patterns=[tt]))
        except z3.Z3Exception:
            out.append(z3.ForAll([v], bb))
    return out[0] if len(out) == 1 else z3.And(*out)


_ni = {}


def norm_index(t):
    """simplify the integer arguments of uninterpreted applications"""
    k = t.get_id()
    r = _ni.get(k)
    if r is not None:
        return r[1]
    if z3.is_quantifier(t):
        r = t
        vs = [z3.Const(t.var_name(i) + '!n', t.var_sort(i)) for i in range(t.num_vars())]
        body = z3.substitute_vars(t.body(), *reversed(vs))
        nb = norm_index(body)
        if not nb.eq(body):
            pats = []
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                ps = [norm_index(z3.substitute_vars(c, *reversed(vs))) for c in p.children()]
                pats.append(z3.MultiPattern(*ps) if len(ps) > 1 else ps[0])
            r = z3.ForAll(vs, nb, patterns=pats) if t.is_forall() else z3.Exists(vs, nb)
    elif z3.is_app(t) and t.num_args():
        cs = [norm_index(c) for c in t.children()]
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            cs = [z3.simplify(c) if z3.is_int(c) and z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB) else c for c in cs]
        r = t.decl()(*cs) if any(not a.eq(b) for a, b in zip(cs, t.children())) else t
    else:
        r = t
    _ni[k] = (t, r)
    return r


def bounds_of(f, x):
    cs = []
    if f.lo is not None:
        cs.append(zi(f.lo) <= x)
    if f.hi is not None:
        cs.append(x < zi(f.hi))
    if isinstance(f, FAll) and f.dom is not None and f.sort == 'int':
        cs.append(z3.And(x >= 0, x < (1 << 32)))
    if isinstance(f, FAll) and f.sort.startswith('ref:'):
        cs.append(z3.And(x >= 1, x < eng.E.alloc_now()))
    return band(*cs)


# ------------------------------------------------------------ proving
def prove(E, f, ms=10000):
    """split the goal, skolemise, and discharge every part; -> (status, info)"""
    ex, pc, nf, qd = E.ex, list(E.pc), E.nfresh, E.qd
    en, pe = dict(E.enums), list(E.path_enums)
    E.ex = []
    try:
        return prove_rec(E, f, ms, 0)
    except Infeasible:
        return 'ok', 'path infeasible'
    finally:
        E.ex, E.pc, E.nfresh, E.qd = ex, pc, max(nf, nf), qd
        E.path_enums = pe


def prove_rec(E, f, ms, d):
    f = call(f)
    if isinstance(f, bool):
        if f:
            E.stats['trivial'] += 1
            return 'ok', 'trivial'
        return check_goal(E, False, ms)
    if isinstance(f, FOpq):
        return prove_opq(E, f, ms, d)
    if isinstance(f, FLbl):
        s, i = prove_rec(E, f.f, ms, d)
        return s, (f.name + ': ' + str(i)) if s != 'ok' else i
    if isinstance(f, FAnd):
        last = ('ok', 'trivial')
        bad = None
        for k, x in enumerate(f.fs):
            s, i = prove_rec(E, x, ms, d + 1)
            if s == 'fail':
                return s, 'part %d: %s' % (k, i)
            if s != 'ok':
                bad = (s, 'part %d: %s' % (k, i))
            elif i != 'trivial':
                last = (s, i)
        return bad or last
    if isinstance(f, FImp):
        return with_hyp(E, f.a, f.b, ms, d)
    if isinstance(f, FAll):
        if isinstance(f.lo, int) and isinstance(f.hi, int) and f.hi - f.lo <= 40:
            return prove_rec(E, FAnd([(lambda k=k: f.fn(k)) for k in range(f.lo, f.hi)]), ms, d)
        if f.sort == 'real':
            z = z3.Real(E.fresh('sk'))
            x = F(fl.p_atom_z(z))
        else:
            x = z = z3.Int(E.fresh('sk'))
        keep = list(E.pc)
        try:
            r = bounds_of(f, z) if f.sort != 'real' else True
            if r is False:
                return 'ok', 'trivial'
            try:
                E.assume(r)
            except Infeasible:
                return 'ok', 'trivial'
            pc1 = list(E.pc)
            try:
                return prove_rec(E, f.fn(x), ms, d + 1)
            except Unsupported as e:
                if 'branch outside exploration' not in str(e):
                    raise
                E.pc = pc1
                return forked(E, lambda: prove_rec(E, f.fn(x), ms, d + 1))
        finally:
            E.pc = keep
    if isinstance(f, FEq):
        return prove_eq(E, f.a, f.b, ms)
    if isinstance(f, FOr):
        fs = [call(x) for x in f.fs]
        if len(fs) == 2:
            return with_hyp(E, FNot(fs[0]), fs[1], ms, d)
        return check_goal(E, to_z3(f), ms)
    return check_goal(E, to_z3(f), ms)


def with_hyp(E, a, b, ms, d):
    z = to_z3(a)
    if z is False:
        return 'ok', 'trivial'
    keep = list(E.pc)
    try:
        try:
            E.assume(z)
        except Infeasible:
            return 'ok', 'trivial'
        if z is not True and E.sat(True, ms=800) == 'unsat':
            return 'ok', 'z3'
        return prove_rec(E, b, ms, d + 1)
    finally:
        E.pc = keep


def prove_eq(E, a, b, ms):
    a, b = unview(a), unview(b)
    if isinstance(a, M) or isinstance(b, M):
        if not isinstance(a, M) or not isinstance(b, M):
            if isinstance(a, M) and egn_is1(a):
                return prove_eq(E, a.get(0, 0), b, ms)
            if isinstance(b, M) and egn_is1(b):
                return prove_eq(E, a, b.get(0, 0), ms)
            return 'fail', 'kinds differ'
        if a.dense() and b.dense():
            if (a.rows, a.cols) != (b.rows, b.cols):
                return check_goal(E, False, ms)
            res = ('ok', 'trivial')
            bad = None
            for k, (x, y) in enumerate(zip(a.lst(), b.lst())):
                s, i = prove_eq(E, x, y, ms)
                if s == 'fail':
                    return s, 'entry (%d,%d): %s' % (k // a.cols, k % a.cols, i)
                if s != 'ok':
                    bad = (s, 'entry (%d,%d): %s' % (k // a.cols, k % a.cols, i))
                    if bad:
                        return bad
                elif i != 'trivial':
                    res = (s, i)
            return bad or res
        s, i = check_goal(E, band(eqt(a.rows, b.rows), eqt(a.cols, b.cols)), ms)
        if s != 'ok':
            return s, 'dimensions: ' + str(i)
        from . import egn
        ta, tb = egn.term_of(a), egn.term_of(b)
        if ta is not None and tb is not None and egn.t_eq(ta, tb):
            E.stats['norm'] += 1
            return 'ok', 'matrix algebra'
        keep = list(E.pc)
        try:
            ii, jj = z3.Int(E.fresh('ski')), z3.Int(E.fresh('skj'))
            E.assume(z3.And(ii >= 0, ii < zi(a.rows), jj >= 0, jj < zi(a.cols)))
            if isinstance(a.cols, int) and a.cols == 1 or isinstance(b.cols, int) and b.cols == 1:
                jj = 0
            if isinstance(a.rows, int) and a.rows == 1:
                ii = 0
            small = lambda n: range(n) if isinstance(n, int) and n <= 24 else None
            res = ('ok', 'trivial')
            for i2 in small(a.rows) or small(b.rows) or [ii]:
                for j2 in small(a.cols) or small(b.cols) or [jj]:
                    res = forked(E, lambda: prove_eq(E, a.get(i2, j2), b.get(i2, j2), ms))
                    if res[0] != 'ok':
                        return res[0], 'entry (%s,%s): %s' % (i2, j2, res[1])
            return res
        finally:
            E.pc = keep
    if isinstance(a, Q):
        return prove_rec(E, FAnd([FEq(x, y, None) for x, y in zip(a.c, b.c)]), ms, 0)
    if isinstance(a, F) or isinstance(b, F):
        a, b = F.of(a), F.of(b)
        nfa, nfb = a.nf, b.nf
        if nfa is not False or nfb is not False:
            if not (nfa is nfb or isz(nfa) and isz(nfb) and nfa.eq(nfb)):
                s, i = check_goal(E, zb(nfa) == zb(nfb), ms)
                if s != 'ok':
                    return s, 'finiteness: ' + str(i)
            keep = list(E.pc)
            try:
                try:
                    E.assume(bnot(nfa))
                except Infeasible:
                    return 'ok', 'trivial'
                return prove_eq(E, F(a.p), F(b.p), ms)
            finally:
                E.pc = keep
        d = fl.p_add(a.p, b.p, -1)
        t = time.time()
        if fl.p_is_zero(d):
            E.stats['norm'] += 1
            E.stats['norm_s'] = E.stats.get('norm_s', 0) + time.time() - t
            return 'ok', 'trivial' if not d else 'normaliser'
        if has_ite(a) or has_ite(b):
            return split_ite(E, a, b, ms)
        a2, b2 = merge_equal(E, a, b)
        if a2 is not a or b2 is not b:
            d2 = fl.p_add(a2.p, b2.p, -1)
            if fl.p_is_zero(d2):
                E.stats['norm'] += 1
                return 'ok', 'normaliser after z3 equalities'
            a, b, d = a2, b2, d2
        g = lit(F(a.p).cmpeq(F(b.p)))
        s, i = check_goal(E, g, ms, real=True)
        if s == 'fail':
            i = '%s ; difference: %s' % (i, fl.p_str(d)[:600])
        return s, i
    return check_goal(E, eq_z3(a, b), ms)


def egn_is1(m):
    return m.dense() and m.rows == 1 and m.cols == 1


def forked(E, thunk):
    """run thunk over every path its decisions fork into"""
    res = []
    E.ex = []

    def end(kind, v):
        res.append(v)
    save = (E.pc, E.nfresh)
    E.explore(thunk, end)
    bad = [r for r in res if r[0] == 'fail'] or [r for r in res if r[0] != 'ok']
    return bad[0] if bad else ('ok', res[0][1] if res else 'trivial')


def ites_of(z, out, seen):
    k = z.get_id()
    if k in seen:
        return
    seen.add(k)
    if z3.is_app(z):
        if z.decl().kind() == z3.Z3_OP_ITE and z3.is_real(z):
            out.append(z)
        for c in z.children():
            ites_of(c, out, seen)


def has_ite(f):
    out = []
    seen = set()
    for m in f.p:
        for at, e in m:
            ites_of(fl.A.z[at], out, seen)
            if out:
                return True
    return False


def split_ite(E, a, b, ms, depth=0):
    """case split on real-valued conditionals inside the two sides"""
    for m in list(a.p) + list(b.p):
        for at, e in m:
            out = []
            ites_of(fl.A.z[at], out, set())
            if out:
                it = out[0]
                c = it.arg(0)
                res = None
                for side, val in ((c, it.arg(1)), (z3.Not(c), it.arg(2))):
                    keep = list(E.pc)
                    try:
                        try:
                            E.assume(side)
                        except Infeasible:
                            continue
                        if E.sat(True, ms=1500) == 'unsat':
                            continue
                        a2, b2 = subst(a, it, val), subst(b, it, val)
                        if depth > 12:
                            r = check_goal(E, F(a2.p).cmpeq(F(b2.p)), ms, real=True)
                        elif has_ite(a2) or has_ite(b2):
                            d = fl.p_add(a2.p, b2.p, -1)
                            r = ('ok', 'normaliser') if fl.p_is_zero(d) else split_ite(E, a2, b2, ms, depth + 1)
                        else:
                            r = prove_eq(E, F(a2.p), F(b2.p), ms)
                    finally:
                        E.pc = keep
                    if r[0] != 'ok':
                        return r
                    res = r
                return res or ('ok', 'trivial')
    return prove_eq(E, a, b, ms)


def reads_of(z, out, seen):
    """real-valued store reads (uninterpreted applications other than arithmetic) inside a term"""
    k = z.get_id()
    if k in seen:
        return
    seen.add(k)
    if z3.is_app(z):
        if z.sort() == REAL and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.num_args() and z.decl().name() not in ('mul', 'inv', 'sqrt'):
            out.append(z)
        for c in z.children():
            reads_of(c, out, seen)


def merge_equal(E, a, b):
    """replace reads of provably equal store entries by one representative"""
    out, seen = [], set()
    for f in (a, b):
        for m in f.p:
            for at, e in m:
                reads_of(fl.A.z[at], out, seen)
    groups = {}
    for z in out:
        groups.setdefault(z.decl(), []).append(z)
    todo = [g for g in groups.values() if len(g) > 1]
    if not todo:
        return a, b
    s = z3.Solver()
    s.set('timeout', 2500)
    for c in E.axioms + E.pc:
        s.add(c)
    sub = []
    for g in todo:
        reps = []
        for z in g:
            for r in reps:
                t = time.time()
                s.push()
                s.add(z3.Not(z3.And(*[p == q for p, q in zip(z.children(), r.children())])))
                ok = s.check() == z3.unsat
                s.pop()
                E.stats['solver_s'] += time.time() - t
                if ok:
                    sub.append((z, r))
                    break
            else:
                reps.append(z)
    if not sub:
        return a, b
    return subst_all(a, sub), subst_all(b, sub)


def subst_all(f, sub):
    r = {}
    for m, c in f.p.items():
        q = {(): c}
        for at, e in m:
            z = fl.A.z[at]
            z2 = z3.substitute(z, *sub)
            p = {((at, 1),): 1} if z2.eq(z) else from_z3(z2)
            if e < 0:
                p = fl.p_inv(p)
            for _ in range(abs(e)):
                q = fl.p_mul(q, p)
        r = fl.p_add(r, q)
    return F(r)


_unz = {}


def from_z3(z):
    """polynomial of a z3 real term (sums, products by constants and mul() unfolded)"""
    k = z.get_id()
    r = _unz.get(k)
    if r is not None:
        return r[1]
    p = None
    if z3.is_rational_value(z):
        p = fl.p_const(Fraction(z.numerator_as_long(), z.denominator_as_long()))
    elif z3.is_app(z):
        kd = z.decl().kind()
        if kd == z3.Z3_OP_ADD:
            p = {}
            for c in z.children():
                p = fl.p_add(p, from_z3(c))
        elif kd == z3.Z3_OP_SUB:
            cs = z.children()
            p = from_z3(cs[0])
            for c in cs[1:]:
                p = fl.p_add(p, from_z3(c), -1)
        elif kd == z3.Z3_OP_UMINUS:
            p = fl.p_scale(from_z3(z.arg(0)), -1)
        elif kd == z3.Z3_OP_MUL:
            p = dict(fl.ONE)
            for c in z.children():
                p = fl.p_mul(p, from_z3(c))
        elif kd == z3.Z3_OP_UNINTERPRETED and z.num_args():
            nm = z.decl().name()
            if nm == 'mul':
                p = fl.p_mul(from_z3(z.arg(0)), from_z3(z.arg(1)))
            elif nm == 'inv':
                p = fl.p_inv(from_z3(z.arg(0)))
            elif nm == 'sqrt':
                p = fl.p_sqrt(from_z3(z.arg(0)))
    if p is None:
        p = fl.p_atom_z(z)
    _unz[k] = (z, p)
    return p


def subst(f, t, v):
    """replace the z3 term t by v in a polynomial and renormalise"""
    r = {}
    for m, c in f.p.items():
        q = {(): c}
        for at, e in m:
            z = fl.A.z[at]
            z2 = z3.substitute(z, (t, v))
            if z2.eq(z):
                p = {((at, 1),): 1}
            else:
                p = from_z3(z2)
            if e < 0:
                p = fl.p_inv(p)
            for _ in range(abs(e)):
                q = fl.p_mul(q, p)
        r = fl.p_add(r, q)
    return F(r)


_light = {}


def is_light(c):
    """no product of unknown reals anywhere in the constraint"""
    if not isz(c):
        return True
    k = c.get_id()
    r = _light.get(k)
    if r is not None and r[0].eq(c):
        return r[1]
    ok, seen, todo = True, set(), [c]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            kd = x.decl().kind()
            if kd == z3.Z3_OP_POWER or kd == z3.Z3_OP_MUL and sum(1 for y in x.children() if not z3.is_rational_value(y) and not z3.is_int_value(y)) > 1:
                ok = False
                break
            todo.extend(x.children())
    _light[k] = (c, ok)
    return ok


def check_goal(E, z, ms, real=False):
    z = lit(z)
    if z is True:
        E.stats['trivial'] += 1
        return 'ok', 'trivial'
    E.check_time()
    t = time.time()
    if E.lite.refutes(E.axioms, E.pc, z, 1000):
        E.stats['solver_s'] += time.time() - t
        E.stats['checks'] += 1
        E.stats['z3'] += 1
        return 'ok', 'z3'
    s = z3.Solver()
    s.set('timeout', ms)
    for a in E.axioms:
        s.add(a)
    for c in E.pc:
        s.add(c)
    if z is not False:
        for l in lemmas([z]):
            s.add(l)
        s.add(z3.Not(z))
    r = s.check()
    dt = time.time() - t
    E.stats['solver_s'] += dt
    E.stats['checks'] += 1
    if r == z3.unsat:
        E.stats['z3'] += 1
        return 'ok', 'z3'
    if r == z3.sat:
        m = s.model()
        return 'fail', model_str(m)
    if E.second_solver:
        r2 = cvc5_check(E, s, ms)
        if r2 == 'unsat':
            E.stats['cvc5'] += 1
            return 'ok', 'cvc5'
        if r2 == 'sat':
            return 'fail', 'cvc5: satisfiable'
    return 'timeout', 'z3: %s after %.1fs' % (s.reason_unknown(), dt)


def cvc5_check(E, s, ms):
    import subprocess, tempfile, os
    txt = s.to_smt2()
    t = time.time()
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = r.stdout.strip().split('\n')[0]
        return out
    except Exception:
        return 'unknown'
    finally:
        E.stats['solver_s'] += time.time() - t
        try:
            os.unlink(f.name)
        except Exception:
            pass


def model_str(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            n = d.name()
            out.append('%s=%s' % (n, m[d]))
    out.sort()
    return 'counterexample: ' + ', '.join(out)[:1500]


# ------------------------------------------------------------ views
class View:
    pass


def unview(v):
    if isinstance(v, RV):
        return v.v
    if isinstance(v, CRef):
        return v.rid_
    return v


class Frozen:
    """a symbolic state"""

    def __init__(self, H, alloc):
        self.H = H
        self.alloc = alloc


def rd(H, path, idx, kind):
    """value in a frozen store"""
    E = eng.E
    return E.rd(path, idx, kind, H=H)


def wrap(S, loc):
    k = kind_of(loc.ty)
    t = loc.ty
    if k is None:
        if t.k in ('vector', 'deque', 'array'):
            return SeqV(S, loc)
        if t.k in ('umap', 'map', 'set', 'uset'):
            return MapV(S, loc)
        return V(S, loc)
    v = rd(S.H, loc.path, loc.idx, k)
    if k[0] == 'ref':
        return RV(S, v, t.a[0])
    if k[0] == 'py' and isinstance(v, PtrV):
        if v.loc is None:
            return None
        return wrap(S, v.loc)
    return v


class V(View):
    """object in a state"""

    def __init__(self, S, loc):
        self.__dict__['S'] = S
        self.__dict__['loc'] = loc

    def __getattr__(self, name):
        return wrap(self.S, self.at(name))

    def at(self, name):
        """location of a member"""
        from . import ev
        loc = self.loc
        for part in name.split('.'):
            if loc.ty.k == 'ptr':
                loc = rd(self.S.H, loc.path, loc.idx, ('py',)).loc
            loc = ev.X.member(loc, part)
        return loc

    def get(self, name):
        return getattr(self, name)


class RV(View):
    """shared pointer in a state"""

    def __init__(self, S, v, ty):
        self.__dict__['S'] = S
        self.__dict__['v'] = v
        self.__dict__['ty'] = ty

    @property
    def ref(self):
        return self.v.ref

    @property
    def null(self):
        return eqt(self.v.ref, 0)

    @property
    def obj(self):
        return V(self.S, Loc((self.ty.a[0],), (self.v.ref,), self.ty))

    def at(self, name):
        return self.obj.at(name)

    def __getattr__(self, name):
        return getattr(self.obj, name)

    def inp(self, S):
        return RV(S.S if hasattr(S, 'S') else S, self.v, self.ty)


def ObjAt(ns, cls, r):
    """the object of a class with a given reference, in a state"""
    if CONC:
        o = ns.S.objs[r]
        return CObj(ns.S, o['f'], Ty('class', cls), ('obj', r))
    return V(ns.S, Loc((cls,), (r,), Ty('class', cls)))


def Fresh(p, r):
    """the object r did not exist in the state of p"""
    if CONC:
        return r.ref not in p.S.objs and r.ref != 0
    return zi(r.ref) >= zi(p.S.alloc)


class SeqV(View):
    def __init__(self, S, loc):
        self.S, self.loc = S, loc

    def rng(self):
        c = self.loc
        if c.ty.k == 'array':
            return 0, c.ty.a[1]
        eng.E.seqty.setdefault(c.path, c.ty)
        hi = rd(self.S.H, c.path + ('#hi',), c.idx, ('int', 64, True))
        if c.ty.k == 'vector':
            return 0, hi
        return rd(self.S.H, c.path + ('#lo',), c.idx, ('int', 64, True)), hi

    @property
    def n(self):
        from .stl import sub
        lo, hi = self.rng()
        return sub(hi, lo)

    def __getitem__(self, i):
        from .stl import add
        lo, hi = self.rng()
        return wrap(self.S, Loc(self.loc.path + ('[]',), self.loc.idx + (add(lo, i),), self.loc.ty.a[0]))

    @property
    def last(self):
        from .stl import sub
        return self[sub(self.n, 1)]


class MapV(View):
    def __init__(self, S, loc):
        self.S, self.loc = S, loc

    def key(self, k):
        return F.of(k) if self.loc.ty.a[0].k == 'float' and not isinstance(k, F) else k

    def has(self, k):
        return rd(self.S.H, self.loc.path + ('#dom',), self.loc.idx + (self.key(k),), ('bool',))

    @property
    def n(self):
        return rd(self.S.H, self.loc.path + ('#size',), self.loc.idx, ('int', 64, True))

    def __getitem__(self, k):
        return wrap(self.S, Loc(self.loc.path + ('{}',), self.loc.idx + (self.key(k),), self.loc.ty.a[1]))

    def enum(self):
        """(size, key at rank, rank of key) of the current contents"""
        from . import stl
        E = eng.E
        sv = E.H
        E.H = self.S.H
        try:
            e = stl.enum_of(self.loc)
        finally:
            E.H = sv
        return e


# ------------------------------------------------------------ concrete evaluation
class Counter:
    """number of keys of a map satisfying a predicate; upto(n): among the first n of its enumeration"""

    def __init__(self, f, enum):
        self.f, self.enum = f, enum

    def upto(self, n):
        return self.f(zi(n))

    @property
    def total(self):
        return self.f(zi(self.enum.size))


def Count(m, pred, tag):
    if CONC:
        class C:
            total = sum(1 for k in m.d if holds(pred(k))[0])
        return C
    E = eng.E
    S = m.S
    key = (tag, m.loc.path, tuple(x.get_id() if isz(x) else x for x in m.loc.idx), tuple(sorted((str(p), id(l)) for p, l in S.H.items() if not str(p[0]).startswith('L!'))))
    c = E.counts.get(key)
    if c is None:
        e = m.enum()
        c = Counter(z3.Function('count_%s#%d' % (tag, len(E.counts)), INT, INT), e)
        E.counts[key] = c
        n = z3.Int('cn')
        E.qd += 1
        try:
            b = to_z3(pred(e.en(n)))
        finally:
            E.qd -= 1
        b = z3.BoolVal(b) if isinstance(b, bool) else b
        f = c.f
        E.keep.append((pred, m))
        for ax in (f(0) == 0,
                   z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < zi(e.size)), f(n + 1) == f(n) + z3.If(b, 1, 0)), patterns=[e.en(n)]),
                   z3.ForAll([n], z3.Implies(z3.And(n >= 0, n <= zi(e.size)), z3.And(f(n) >= 0, f(n) <= n)), patterns=[f(n)])):
            if E.ex:
                E.late_axiom(ax)
            else:
                E.assume(ax)
    return c


class Bad(Exception):
    pass


def holds(f, ctx=''):
    """-> (bool, explanation of the first failure)"""
    f = call(f)
    if isinstance(f, bool):
        return f, ctx
    if isinstance(f, FLbl):
        r, w = holds(f.f, ctx)
        return r, (f.name + ' ' + str(w))
    if isinstance(f, FAnd):
        for k, x in enumerate(f.fs):
            r, w = holds(x, ctx + '/%d' % k)
            if not r:
                return r, w
        return True, ctx
    if isinstance(f, FOr):
        for x in f.fs:
            r, w = holds(x, ctx)
            if r:
                return True, ctx
        return False, ctx + '/or'
    if isinstance(f, FNot):
        r, w = holds(f.f, ctx)
        return not r, ctx + '/not'
    if isinstance(f, FImp):
        if holds(f.a, ctx)[0]:
            return holds(f.b, ctx + '/then')
        return True, ctx
    if isinstance(f, FOpq):
        if f.lo is None:
            return holds(f.rel(*f.reads()), ctx)
        for k in range(f.lo, f.hi):
            r, w = holds(f.rel(*f.reads(k)), ctx + '[%s]' % k)
            if not r:
                return False, w
        return True, ctx
    if isinstance(f, FEq):
        return ceq(f.a, f.b, f.tol, ctx)
    if isinstance(f, (FAll, FEx)):
        if isinstance(f, FAll) and f.dom is not None and not f.sort.startswith('ref:'):
            ks = set()
            for m in f.dom if isinstance(f.dom, (list, tuple)) else [f.dom]:
                if isinstance(m, (CMap,)):
                    ks |= set(m.d)
                elif isinstance(m, CSeq):
                    ks |= set(m[i] for i in range(m.n))
                else:
                    ks.add(m)
            ks = sorted(ks)
        elif isinstance(f, FAll) and f.sort.startswith('ref:'):
            cls = f.sort[4:]
            ks = sorted(i for i, o in f.dom.S.objs.items() if o['cls'] == cls)
        else:
            ks = range(f.lo, f.hi)
        for k in ks:
            r, w = holds(f.fn(k), ctx + '[%s]' % k)
            if isinstance(f, FAll) and not r:
                return False, w
            if isinstance(f, FEx) and r:
                return True, ctx
        return isinstance(f, FAll), ctx
    if f is None:
        return False, ctx
    if hasattr(f, '__bool__') or isinstance(f, (int, float)):
        return bool(f), ctx
    raise Bad('formula %r' % (f,))


def cl(v):
    if isinstance(v, M):
        return v.lst()
    if isinstance(v, Q):
        return list(v.c)
    return None


def ceq(a, b, tol, ctx):
    a, b = unview(a), unview(b)
    if isinstance(a, (M, Q)) or isinstance(b, (M, Q)):
        if isinstance(a, M) and isinstance(b, M) and (a.rows != b.rows or a.cols != b.cols):
            return False, ctx + ' dims %dx%d vs %dx%d' % (a.rows, a.cols, b.rows, b.cols)
        la, lb = cl(a), cl(b)
        if la is None or lb is None:
            la = la if la is not None else [a]
            lb = lb if lb is not None else [b]
        sc = max([1.0] + [abs(x) for x in la if x == x and abs(x) != math.inf])
        for k, (x, y) in enumerate(zip(la, lb)):
            if not feq(x, y, tol, sc):
                return False, ctx + ' entry %d: %r vs %r' % (k, x, y)
        return len(la) == len(lb), ctx
    if isinstance(a, float) or isinstance(b, float):
        return feq(a, b, tol, max(1.0, abs(a) if a == a else 1.0)), ctx + ' %r vs %r' % (a, b)
    if isinstance(a, (CSeq, CMap, CObj)) or isinstance(b, (CSeq, CMap, CObj)):
        return a.j == b.j, ctx
    return a == b, ctx + ' %r vs %r' % (a, b)


def feq(x, y, tol, sc):
    if x is None or y is None:
        return x is y
    if x != x or y != y:
        return x != x and y != y
    if x == y:
        return True
    if tol == 0:
        return False
    t = TOL if tol is None else tol
    return abs(x - y) <= t * sc


class CState:
    """concrete state: objs id -> {'cls','f'}, roots name -> json value"""

    def __init__(self, j, types):
        self.objs = {int(k): v for k, v in j['objs'].items()}
        self.roots = j['roots']
        self.types = types
        self.S = self


def cwrap(S, j, t, path):
    k = t.k
    if k == 'int':
        return j
    if k == 'bool':
        return bool(j)
    if k == 'float':
        return cfloat(j)
    if k == 'mat':
        return M(j['r'], j['c'], [cfloat(x) for x in j['d']])
    if k == 'quat':
        return Q(*[cfloat(x) for x in j])
    if k == 'shared':
        return CRef(S, j, t.a[0], path)
    if k == 'ptr':
        if j is None:
            return None
        return root_view(S, j)
    if k in ('vector', 'deque', 'array'):
        return CSeq(S, j, t, path)
    if k in ('umap', 'map', 'set', 'uset'):
        return CMap(S, j, t, path)
    if k == 'pair':
        return CObj(S, j, t, path)
    if k == 'class':
        if S.types.is_enum(t.a[0]):
            return j
        return CObj(S, j, t, path)
    if k == 'string':
        return j
    return None


def cfloat(x):
    if isinstance(x, str):
        return {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf}[x]
    return float(x)


def root_view(S, name):
    head, _, rest = name.partition('.')
    t = S.types.roots[head]
    v = cwrap(S, S.roots[head], t, ('root', head))
    for part in rest.split('.') if rest else []:
        v = getattr(v, part)
    return v


class CObj(View):
    def __init__(self, S, j, t, path):
        self.__dict__.update(S=S, j=j, t=t, path=path)

    def __getattr__(self, name):
        if name not in self.j:
            raise AttributeError(name)
        if self.t.k == 'pair':
            ft = self.t.a[0 if name == 'first' else 1]
        else:
            ft = self.S.types.field(self.t.a[0], name)
        return cwrap(self.S, self.j[name], ft, self.path + (name,))

    def at(self, name):
        o = self
        path = self.path
        parts_ = name.split('.')
        for i, p in enumerate(parts_):
            if i == len(parts_) - 1:
                if isinstance(o, CRef):
                    o = o.obj
                return o.path + (p,)
            o = getattr(o, p)

    def get(self, name):
        return getattr(self, name)


class CRef(View):
    def __init__(self, S, j, t, path):
        self.__dict__.update(S=S, rid_=j or 0, t=t, path=path)

    @property
    def ref(self):
        return self.rid_

    @property
    def null(self):
        return self.rid_ == 0

    @property
    def obj(self):
        o = self.S.objs.get(self.rid_)
        if o is None:
            raise Bad('null object')
        return CObj(self.S, o['f'], self.t, ('obj', self.rid_))

    def at(self, name):
        return self.obj.at(name)

    def __getattr__(self, name):
        return getattr(self.obj, name)

    def inp(self, S):
        return CRef(S.S, self.rid_, self.t, self.path)


class CSeq(View):
    def __init__(self, S, j, t, path):
        self.S, self.j, self.t, self.path = S, j, t, path

    @property
    def n(self):
        return len(self.j)

    @property
    def loc(self):
        return self.path

    def __getitem__(self, i):
        if not (0 <= i < len(self.j)):
            raise Bad('index %s outside %d' % (i, len(self.j)))
        return cwrap(self.S, self.j[i], self.t.a[0], self.path + (i,))

    @property
    def last(self):
        return self[len(self.j) - 1]


class CMap(View):
    def __init__(self, S, j, t, path):
        self.S, self.j, self.t, self.path = S, j, t, path
        kf = (lambda x: cfloat(x)) if t.a[0].k == 'float' else (lambda x: int(x))
        if t.k in ('set', 'uset'):
            self.d = {kf(x): None for x in j}
        else:
            self.d = {kf(k): v for k, v in j}

    @property
    def loc(self):
        return self.path

    @property
    def n(self):
        return len(self.d)

    def has(self, k):
        return k in self.d

    def __getitem__(self, k):
        if k not in self.d:
            raise Bad('key %s' % k)
        return cwrap(self.S, self.d[k], self.t.a[1], self.path + (k,))
