"""Loops: concrete unrolling when the condition is concrete, otherwise an inductive invariant.

The invariant is the greatest subset of a pool of candidate assertions (generic ones built from
the modified locations, plus the contract's own) that holds on entry and is preserved by an
arbitrary iteration (Houdini); both facts are discharged by the prover for this source on this run.
"""
import os, re, time
import z3
from . import eng, fl, stl, spec
from .eng import *
from .fl import F

UNROLL = 64
DEBUG = os.environ.get('VC_DEBUG')


def probe(x, cond):
    """condition value when it needs no fork and no solver, else None; effects kept only if literal"""
    from .ev import NeedFork
    E = eng.E
    s = E.snap()
    E.nofork += 1
    no = len(E.obls)
    try:
        c = lit(cond())
        if not isinstance(c, bool):
            c2 = z3.simplify(c)
            c = lit(c2)
    except NeedFork:
        c = None
    finally:
        E.nofork -= 1
    if isinstance(c, bool):
        return c
    ex = [(e, e.trace, e.pos) for e in E.ex]
    E.restore(s)
    return None


def run(x, n, cond, body, inc):
    E = eng.E
    start = E.snap()
    for k in range(UNROLL + 1):
        c = None if E.cutloops else probe(x, cond)
        if c is None:
            break
        if c is False:
            return
        if k == UNROLL:
            E.restore(start)
            break
        try:
            body()
        except ContinueEx:
            pass
        except BreakEx:
            return
        if inc:
            inc()
        E.check_time()
    cut(x, n, cond, body, inc)


def names(t, out):
    todo = [t]
    seen = set()
    while todo:
        z = todo.pop()
        if isinstance(z, F):
            z = z.z()
        if not isz(z):
            continue
        if z.get_id() in seen:
            continue
        seen.add(z.get_id())
        if z3.is_quantifier(z):
            todo.append(z.body())
            continue
        if z3.is_app(z):
            d = z.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            todo.extend(z.children())


def fresh_no(nm):
    """freshness number of a name: the last one in it (E.fresh appends it)"""
    p = str(nm).rsplit('!', 1)
    if len(p) < 2:
        return 0
    s = ''
    for ch in p[1]:
        if ch.isdigit():
            s += ch
        else:
            break
    return int(s) if s else 0


def stable(t, nf):
    s = set()
    names(t, s)
    return all(fresh_no(x) <= nf for x in s)


def root_is_local(path, nf):
    r = str(path[0])
    return r.startswith('L!') and int(r.split('!')[2]) > nf


def sub_kind_facts(name, kind, sorts):
    """well-formedness of a havocked store, assumed on the path"""
    E = eng.E
    if kind[0] not in ('int', 'ref', 'dyn'):
        return
    xs = [z3.Const('hx%d' % i, s) for i, s in enumerate(sorts)]

    def add(nm, lo, hi):
        if not xs:
            v = z3.Int(nm)
            E.assume(z3.And(v >= lo, v <= hi))
        else:
            v = z3.Function(nm, *(list(sorts) + [INT]))(*xs)
            E.assume(z3.ForAll(xs, z3.And(v >= lo, v <= hi), patterns=[v]))
    if kind[0] == 'int':
        lo, hi = int_range(kind)
        add(name, lo, hi)
    elif kind[0] == 'ref':
        add(name, 0, E.alloc_now() - 1)
    else:
        if kind[1] < 0:
            add(name + '_rows', 0, MAXSZ)
        if kind[2] < 0:
            add(name + '_cols', 0, MAXSZ)


def unit_name(path):
    return 'unit length of %s' % '.'.join(map(str, path))


UNITS = [0]


def egn():
    from . import egn
    return egn


def havoc_leaf(path, pre, units=()):
    """arbitrary contents for all indices extending prefix pre"""
    E = eng.E
    kind, sorts = E.kinds[path], E.sorts[path]
    nm = E.fresh('hv.' + '.'.join(map(str, path)))
    if kind[0] == 'quat' and not sorts and unit_name(path) in units:
        # never the name of another value: the unit length is attached to the name
        UNITS[0] += 1
        v = base_value('%su%d' % (nm, UNITS[0]), kind, [], [])
        fl.declare_unit(v.c)
        E.wr(path, (), kind, v)
        return
    rest = sorts[len(pre):]
    if kind[0] == 'py':
        raise Unsupported('havoc of an indexed opaque value')
    if not sorts:
        v = base_value(nm, kind, [], [])
        E.wr(path, (), kind, v)
        E.value_facts(v, kind)
        return
    sub_kind_facts(nm, kind, rest)
    if not rest:
        v = base_value(nm, kind, [], [])
        E.wr(path, pre, kind, v)
        return
    b = LBase(nm, kind, rest, None)
    E.wr_pre(path, pre, kind, sorts, lambda r, b=b: b.read(tuple(r)))


class Loop:
    pass


def py_points(v):
    if isinstance(v, IterV):
        return v.pos
    if isinstance(v, stl.MapIter):
        return v.pos
    return None


def cut(x, n, cond, body, inc):
    eng.E.nest += 1
    try:
        cut1(x, n, cond, body, inc)
    finally:
        eng.E.nest -= 1


def cut1(x, n, cond, body, inc):
    E = eng.E
    key = (n['id'], tuple((e.ser, tuple(e.trace[:e.pos])) for e in E.ex))
    L = E.loopcache.get(key)
    t0 = time.time()
    nf0 = E.nfresh
    entry = spec.Frozen(dict(E.H), E.alloc_now())
    if L is None:
        L = Loop()
        L.line = n.get('range', {}).get('begin', {}).get('line') or n.get('range', {}).get('begin', {}).get('expansionLoc', {}).get('line')
        E.cutdepth += 1
        ex, E.ex = E.ex, [Explorer([], [])]
        E.exser += 1
        E.ex[0].ser = E.exser
        try:
            discover(x, n, L, entry, nf0, cond, body, inc)
            if DISCOVERING[0]:
                L.inv, L.keeps = [], []
            else:
                houdini(x, n, L, entry, nf0, cond, body, inc)
            if E.ex[0].pending:
                raise Unsupported('undecided branch while analysing a loop')
        finally:
            E.cutdepth -= 1
            E.ex = ex
        if not DISCOVERING[0]:
            E.loopcache[key] = L
        if DEBUG:
            print('  [loop %s in %s: %d modified, %d invariants, %.1fs]' % (L.line, E.fn_name, len(L.mod), len(L.inv), time.time() - t0))
            for nm, _ in L.inv:
                print('      inv', nm)
    # continue in the main exploration
    k = havoc_all(L, entry, L.keeps, x, L.inv)
    for nm, f in L.inv:
        E.assume_formula(f(k))
    flag = E.fresh_bool('iterate')
    if E.decide(flag):
        c = cond()
        if not E.decide(c):
            raise Infeasible()
        try:
            body()
        except ContinueEx:
            raise Infeasible()
        except BreakEx:
            return
        if inc:
            inc()
        raise Infeasible()
    c = cond()
    if E.decide(c):
        raise Infeasible()


class LKeep:
    """contents after some iterations: positions not yet reached still hold what they held at loop entry"""

    def __init__(self, reached, new, old):
        self.reached, self.new, self.old = reached, new, old

    def read(self, idx):
        return eng.E.pick(self.reached(idx), lambda: self.new.read(idx), lambda: self.old.read(idx))


def havoc_all(L, entry, keeps=(), x=None, live=()):
    E = eng.E
    old_leaves = {kp[1]: E.leaf(kp[1]) for kp in keeps}
    units = {nm for nm, _ in live if nm.startswith('unit length of')}
    k = E.fresh_int('iter')
    E.assume(k >= 0)
    E.assume(k < MAXSZ)
    if L.allocs:
        a = E.fresh_int('alloc')
        E.assume(a >= E.alloc_now())
        E.alloc, E.nalloc = a, 0
    for path, pre, old in L.havoc:
        if old is not None:          # iterator variable
            p = E.fresh_int('pos')
            if isinstance(old, IterV):
                v = IterV(old.cont, p, old.rev)
                E.assume(z3.And(p >= -MAXSZ, p <= 2 * MAXSZ))
            elif isinstance(old, stl.MapIter):
                v = stl.MapIter(old.cont, old.enum, p, None, old.rev)
                E.assume(z3.And(p >= 0, p <= MAXSZ))
            E.wr(path, pre, E.kinds[path], v)
        else:
            havoc_leaf(path, pre, units)
    for nm, path, vis in keeps:
        kk = K(k, x, entry, L)
        E.H[path] = LKeep(vis(kk), E.leaf(path), old_leaves[path])
    for path, pre, old in L.havoc:
        if path[-1] in ('#hi', '#lo', '#size') and old is None:
            size_facts(path, pre)
    for nm, _ in live:
        e = L.exact.get(nm)
        if e:
            # the counter is written as start + d * n
            path, pre, v0, d = e
            new = z3.simplify(zi(v0) + d * k)
            E.assume(zi(point_value((path, pre))) == new)
            v = E.rd(path, pre, E.kinds[path])
            if isinstance(v, IterV):
                v = IterV(v.cont, new, v.rev)
            elif isinstance(v, stl.MapIter):
                continue
            else:
                v = new
            E.wr(path, pre, E.kinds[path], v)
    return k


def size_facts(path, pre):
    """a havocked container is a container: its size is not negative"""
    E = eng.E
    ty = E.seqty.get(path[:-1])
    hi = path[:-1] + (('#size',) if path[-1] == '#size' else ('#hi',))
    if path[-1] != '#size' and ty is None or hi not in E.kinds:
        return
    xs = [z3.Const('sx%d' % i, s) for i, s in enumerate(E.sorts[hi][len(pre):])]
    idx = tuple(pre) + tuple(F(fl.p_atom_z(x)) if x.sort() == REAL else x for x in xs)
    E.qd += 1
    try:
        h = E.rd(hi, idx, ('int', 64, True))
        lo = E.rd(path[:-1] + ('#lo',), idx, ('int', 64, True)) if ty is not None and ty.k == 'deque' else 0
    finally:
        E.qd -= 1
    f = z3.And(zi(h) >= zi(lo), zi(h) < zi(lo) + MAXSZ)
    if xs:
        if not isz(h) or not spec.no_ite(h):
            return
        f = z3.ForAll(xs, f, patterns=[h])
    E.assume(f)


DISCOVERING = [0]


def discover(x, n, L, entry, nf0, cond, body, inc):
    DISCOVERING[0] += 1
    try:
        discover1(x, n, L, entry, nf0, cond, body, inc)
    finally:
        DISCOVERING[0] -= 1


def discover1(x, n, L, entry, nf0, cond, body, inc):
    """which locations an arbitrary iteration may write"""
    E = eng.E
    mod = {}
    L.allocs = False
    L.steps = {}
    for rnd in range(6):
        L.mod = mod
        plan(L, nf0)
        found = []
        steps = {}
        s = E.snap()
        wl = E.wlog
        E.quiet += 1
        allocs = [False]
        wk, lk = E.enums, None
        havoc_all(L, entry)
        a0, na0 = E.alloc, E.nalloc
        before = point_values(L)
        try:
            def it():
                E.wlog = []
                c = cond()
                if not E.decide(c):
                    found.extend(E.wlog)
                    raise LoopExit()
                try:
                    body()
                except ContinueEx:
                    pass
                if inc:
                    inc()

            def end(kind, v):
                found.extend(E.wlog or [])
                if E.nalloc != na0 or E.alloc is not a0:
                    allocs[0] = True
                if kind == 'normal':
                    for key, b in before.items():
                        try:
                            a = point_value(key)
                        except Unsupported:
                            continue
                        if a is None:
                            d = None
                        else:
                            d = z3.simplify(zi(a) - zi(b))
                            d = d.as_long() if z3.is_int_value(d) else None
                            if d is None:
                                d = const_diff(a, b)
                        steps.setdefault(key, set()).add(d)
            E.explore(it, end, limit=400)
        finally:
            E.quiet -= 1
            E.wlog = wl
            E.restore(s)
        new = False
        for path, idx in found:
            if root_is_local(path, nf0) and not path_known(path, entry):
                continue
            ids = mod.setdefault(path, [])
            pre = []
            for t in idx:
                if stable(t, nf0):
                    pre.append(t)
                else:
                    break
            pre = tuple(pre)
            if not any(len(q) <= len(pre) and all(same_term(a, b) for a, b in zip(q, pre)) for q in ids):
                ids[:] = [q for q in ids if not (len(pre) <= len(q) and all(same_term(a, b) for a, b in zip(pre, q)))]
                ids.append(pre)
                new = True
            if len(ids) > 4:
                ids[:] = [()]
        if allocs[0] and not L.allocs:
            L.allocs = True
            new = True
        L.steps = steps
        if not new:
            break
    else:
        raise Unsupported('loop effects do not stabilise')
    if wl is not None:
        # report writes to an enclosing discovery
        for path, ids in mod.items():
            for q in ids:
                wl.append((path, q))


def const_diff(a, b):
    """a - b when it is the same constant under the path condition"""
    E = eng.E
    s = z3.Solver()
    s.set('timeout', 500)
    for c in E.pc:
        if not z3.is_quantifier(c):
            s.add(c)
    d = z3.simplify(zi(a) - zi(b))
    if s.check() != z3.sat:
        return None
    v = s.model().eval(d, model_completion=True)
    if not z3.is_int_value(v):
        return None
    if abs(v.as_long()) > 64:
        return None
    s.add(d != v)
    return v.as_long() if s.check() == z3.unsat else None


def path_known(path, entry):
    return path in entry.H


def plan(L, nf0):
    E = eng.E
    L.havoc = []
    for path, ids in L.mod.items():
        kind = E.kinds[path]
        for pre in ids:
            old = None
            if kind[0] == 'py':
                l = E.H.get(path)
                if l is None:
                    continue
                old = l.read(pre)
                if not isinstance(old, (IterV, stl.MapIter)):
                    if isinstance(old, Obj) and old.k in ('opaque', 'uninit', 'stream'):
                        continue
                    if isinstance(old, PtrV):
                        raise Unsupported('raw pointer modified in a loop')
                    raise Unsupported('opaque value %r modified in a loop' % (old,))
                if isinstance(old, stl.MapIter) and old.pos is None:
                    raise Unsupported('found iterator modified in a loop')
            L.havoc.append((path, pre, old))


def point_values(L):
    out = {}
    for path, pre, old in L.havoc:
        key = (path, pre)
        try:
            v = point_value(key)
        except Unsupported:
            continue
        if v is not None:
            out[key] = v
    return out


def point_value(key):
    E = eng.E
    path, pre = key
    kind = E.kinds[path]
    if len(E.sorts[path]) != len(pre):
        return None
    if kind[0] == 'int':
        return E.rd(path, pre, kind)
    if kind[0] == 'py':
        l = E.H.get(path)
        return py_points(l.read(pre)) if l is not None else None
    return None


class K:
    """what an invariant candidate may talk about"""

    def __init__(self, n, x, entry, L=None):
        self.L = L
        self.depth = eng.E.nest
        self.n = n
        self.x = x
        self.ent = eng.E.view(entry) if eng.E.view else None
        self.entry = entry

    @property
    def pre(self):
        return eng.E.pre_view

    @property
    def cur(self):
        return eng.E.view(spec.Frozen(dict(eng.E.H), eng.E.alloc_now()))

    def seqs(self, *path):
        """[(now, at entry)] of the modified sequences whose location ends with the given names"""
        out = []
        for p, pre, old in self.L.havoc:
            if p[-1] == '[]' and p[:-1][-len(path):] == tuple(path):
                ty = None
                for c, ids in eng.E.seqty.items():
                    if c == p[:-1]:
                        ty = ids
                if ty is None or len(eng.E.sorts[p]) != len(pre) + 1:
                    continue
                loc = Loc(p[:-1], tuple(pre), ty)
                out.append((loc, self.now(loc), self.then(loc)))
        return out

    def map_iters(self):
        """[(enumeration, current position)] of the map iterators the loop advances"""
        out = []
        for p, pre, old in self.L.havoc:
            if isinstance(old, stl.MapIter):
                out.append((old.enum, lambda p=p, pre=pre: zi(point_value((p, pre)))))
        return out

    def counters(self):
        """values at entry of the integers the loop increments by one"""
        out = []
        for p, pre, old in self.L.havoc:
            if eng.E.kinds[p][0] == 'int' and len(eng.E.sorts[p]) == len(pre) and p[-1] != '#size' and self.L.steps.get((p, pre)) == {1}:
                out.append(spec.rd(self.entry.H, p, pre, eng.E.kinds[p]))
        return out

    def locals(self, *kinds):
        """[(location)] of the running function's local variables / parameters of the given type kinds"""
        out = []
        for env in eng.E.frames:
            for v in env.values():
                if isinstance(v, Loc) and v.path[0][:2] in ('L!', 'S!') and v.ty.k in kinds and not any(v.same(o) for o in out):
                    out.append(v)
        return out

    def now(self, loc):
        return spec.wrap(spec.Frozen(dict(eng.E.H), None), loc)

    def then(self, loc):
        return spec.wrap(self.entry, loc)


def candidates(x, n, L, entry, cond):
    E = eng.E
    out = []
    L.exact = {}

    def pv(key):
        return lambda: point_value(key)
    for path, pre, old in L.havoc:
        key = (path, pre)
        nm = re.sub(r'![0-9]+', '', '.'.join(map(str, path)) + ('' if not pre else str(list(pre))))
        kind, sorts = E.kinds[path], E.sorts[path]
        f = pv(key)
        if len(sorts) == len(pre):
            v0 = f()
            if v0 is not None:
                st_ = L.steps.get(key, set())
                ks = {d for d in st_ if d is not None}
                for d in sorted(ks):
                    if d != 0:
                        if len(ks) == 1 and None not in st_:
                            L.exact['%s = start%+d*n' % (nm, d)] = (path, pre, v0, d) if '%s = start%+d*n' % (nm, d) not in L.exact else None
                        out.append(('%s = start%+d*n' % (nm, d), lambda k, f=f, v0=v0, d=d: zi(f()) == zi(v0) + d * k.n))
                if any(d is None or d >= 0 for d in st_) or not st_:
                    out.append(('%s >= start' % nm, lambda k, f=f, v0=v0: zi(f()) >= zi(v0)))
                if any(d is None or d <= 0 for d in st_) or not st_:
                    out.append(('%s <= start' % nm, lambda k, f=f, v0=v0: zi(f()) <= zi(v0)))
                if len(ks) > 1 or None in st_:
                    out.append(('%s <= start+n' % nm, lambda k, f=f, v0=v0: zi(f()) <= zi(v0) + k.n))
                    out.append(('%s >= start-n' % nm, lambda k, f=f, v0=v0: zi(f()) >= zi(v0) - k.n))
                if path[-1] == '#size':
                    out.append(('%s >= 0' % nm, lambda k, f=f: zi(f()) >= 0))
            elif kind[0] in ('ref', 'bool', 'float', 'quat') or kind[0] == 'mat' and isinstance(kind[1], int) and isinstance(kind[2], int) and 0 < kind[1] * kind[2] <= 9:
                v0 = E.rd(path, pre, kind)
                if kind[0] == 'quat' and E.unitloops and not sorts:
                    out.append((unit_name(path), lambda k, path=path, pre=pre, kind=kind: spec.Eq(egn().qsq(E.rd(path, pre, kind)), F.of(1))))
                out.append(('%s = start' % nm, lambda k, path=path, pre=pre, kind=kind, v0=v0: spec.Eq(E.rd(path, pre, kind), v0)))
            elif kind[0] == 'dyn':
                v0 = E.rd(path, pre, kind)
                if kind[1] < 0:
                    out.append(('%s rows' % nm, lambda k, path=path, pre=pre, kind=kind, v0=v0: eqt(E.rd(path, pre, kind).rows, v0.rows)))
                if kind[2] < 0:
                    out.append(('%s cols' % nm, lambda k, path=path, pre=pre, kind=kind, v0=v0: eqt(E.rd(path, pre, kind).cols, v0.cols)))
        else:
            l0 = E.leaf(path)
            rest = sorts[len(pre):]
            out.extend(frame_cands(path, pre, kind, rest, l0, nm, entry))
    # consequences of the loop condition

    def weak(k, form, cond=cond):
        c = probe_term(x, cond)
        if c is None:
            return False
        return weaken(c, form)
    c0 = probe_term(x, cond)
    if c0 is not None:
        for form in (0, 1):
            if weaken(c0, form) is not None:
                out.append(('weakened loop condition %d' % form, lambda k, form=form: weak(k, form)))
    return out


def quant(sorts):
    E = eng.E
    xs = []
    for s in sorts:
        if s == REAL:
            z = z3.Real(E.fresh('fq'))
            xs.append(F(fl.p_atom_z(z)))
        else:
            xs.append(z3.Int(E.fresh('fq')))
    return xs


def nest(sorts, fn, args=()):
    if not sorts:
        return fn(args)
    return spec.FAll(None, None, lambda v: nest(sorts[1:], fn, args + (v,)), sort='real' if sorts[0] == REAL else 'int')


def frame_cands(path, pre, kind, rest, l0, nm, entry):
    E = eng.E
    out = []

    def same(a):
        return spec.Eq(E.leaf(path).read(pre + tuple(a)), l0.read(pre + tuple(a)))
    out.append(('%s unchanged' % nm, lambda k: nest(list(rest), same)))
    if not pre and E.frame_ctx and E.frame_ctx[1].H.get(path) is not None or path in E.base:
        from . import contract
        locs, S0 = E.frame_ctx or ([], None)
        if S0 is not None:
            old_ = contract.frame_old(E, path, S0)
            if contract.frame_formula(E, path, l0, old_, locs, S0) is not None:
                out.append(('%s changes only as the contract allows' % nm, lambda k: contract.frame_formula(E, path, E.leaf(path), old_, locs, S0)))
    heap = len(path) > 1 and str(path[0]) in E.prog.records and not pre
    if heap:
        def old(a):
            return spec.Imp(z3.And(zi(a[0]) < zi(entry.alloc)), lambda: same(a))
        out.append(('%s unchanged for older objects' % nm, lambda k: nest(list(rest), old)))
    if '[]' in path:
        # sequence: elements before the entry end keep their value
        i = path.index('[]')
        cp = path[:i]
        ni = len(E.sorts.get(cp + ('#hi',), []))
        if len(pre) >= ni and (cp + ('#hi',)) in E.kinds:
            hi0 = E.leaf(cp + ('#hi',)).read(tuple(pre[:ni]))
            pos = len(pre) - ni

            def oldp(a, hi0=hi0):
                return spec.Imp(zi((tuple(pre) + tuple(a))[ni]) < zi(hi0), lambda: same(a))
            if pos == 0:
                out.append(('%s unchanged below the entry end' % nm, lambda k: nest(list(rest), oldp)))
    return out


def probe_term(x, cond):
    from .ev import NeedFork
    E = eng.E
    s = E.snap()
    E.nofork += 1
    E.quiet += 1
    try:
        c = cond()
        return lit(c)
    except (NeedFork, Infeasible):
        return None
    finally:
        E.nofork -= 1
        E.quiet -= 1
        E.restore(s)


def weaken(c, form):
    if isinstance(c, bool):
        return None
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    a, b = c.arg(0), c.arg(1)
    if not z3.is_int(a):
        return None
    k = c.decl().kind()
    if k == z3.Z3_OP_EQ and neg:
        return (a <= b) if form == 0 else (b <= a)
    if form == 1:
        return None
    if neg:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
    if k == z3.Z3_OP_LT:
        return a <= b
    if k == z3.Z3_OP_GT:
        return b <= a
    if k == z3.Z3_OP_LE:
        return a <= b + 1
    if k == z3.Z3_OP_GE:
        return b <= a + 1
    return None


def keep_formula(kp, x, entry, L):
    """positions not reached within n iterations hold what they held at loop entry"""
    nm, path, vis = kp
    E = eng.E
    l0 = E.leaf(path, H=entry.H)

    def f(k):
        k.L = L
        r = vis(k)
        return nest(list(E.sorts[path]), lambda a: spec.Or(r(tuple(a)), lambda: spec.Eq(E.leaf(path).read(tuple(a)), l0.read(tuple(a)))))
    return f


def houdini(x, n, L, entry, nf0, cond, body, inc):
    E = eng.E
    cands = [c for c in candidates(x, n, L, entry, cond) if c[0].startswith('unit length') or not any(re.search(r, c[0]) for r in E.skip)]
    if E.pool:
        kk = K(0, x, entry, L)
        for c in E.pool(kk) or []:
            cands.append(c)
    ck = (n['id'], 'surv')
    if E.nest > 1 and ck in E.loopcache:
        cands = [c for c in cands if c[0] in E.loopcache[ck]]
    keeps = []
    if E.keeps_pool:
        hv = {path for path, pre, old in L.havoc if pre == () and old is None}
        keeps = [kp for kp in E.keeps_pool(K(0, x, entry, L)) if kp[1] in hv]
    # entry
    live = []
    E.quiet += 1
    try:
        k0 = K(0, x, entry)
        for nm, f in cands:
            try:
                g = f(k0)
                s, i = E.prove_ms(g, 3000)
            except Unsupported:
                continue
            if s == 'ok':
                live.append((nm, f))
            elif DEBUG:
                print('      entry-drop', nm, s, str(i)[:150])
        for rnd in range(25):
            s = E.snap()
            dropped = set()
            try:
                k = K(None, x, entry)
                nz = havoc_all(L, entry, keeps, x, live)
                k.n = nz
                for nm, f in live:
                    E.assume_formula(f(k))

                def it():
                    c = cond()
                    if not E.decide(c):
                        raise LoopExit()
                    try:
                        body()
                    except ContinueEx:
                        pass
                    if inc:
                        inc()

                def end(kind, v):
                    if kind not in ('normal',):
                        return
                    k1 = K(nz + 1, x, entry)
                    for nm, f in live + [(kp[0], keep_formula(kp, x, entry, L)) for kp in keeps]:
                        if nm in dropped:
                            continue
                        try:
                            g = f(k1)
                            t1 = time.time()
                            st_, info = E.prove_ms(g, 1500 if nm.endswith(('unchanged', 'older objects', 'start')) or '= start' in nm else 6000)
                            if DEBUG and st_ == 'ok' and time.time() - t1 > .7:
                                print('      slow %.1f %s' % (time.time() - t1, nm))
                        except Unsupported as e:
                            st_, info = 'fail', str(e)
                        if st_ != 'ok':
                            dropped.add(nm)
                            if DEBUG:
                                print('      drop', nm, st_, str(info)[:200])
                wl, E.wlog = E.wlog, None
                try:
                    E.explore(it, end, limit=400)
                finally:
                    E.wlog = wl
            finally:
                E.restore(s)
            if not dropped:
                break
            live = [c for c in live if c[0] not in dropped]
            keeps = [c for c in keeps if c[0] not in dropped]
        else:
            live, keeps = [], []
    finally:
        E.quiet -= 1
    L.keeps = keeps
    L.inv = [(nm, (lambda z, f=f: f(K(z, x, entry)))) for nm, f in live]
    E.loopcache[ck] = set(nm for nm, _ in live)
    if E.cutdepth == 1 and not E.replaying():
        for nm, _ in live + [kp[:2] for kp in keeps]:
            E.obls.append(dict(name='loop at line %s: invariant "%s" holds on entry and is preserved' % (L.line, nm), fn=E.fn_name, kind='invariant', status='ok', info='z3', t=0, where=None, path=[]))
