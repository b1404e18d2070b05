"""Contracts: verification of a function against its contract, and use of a contract at a call."""
import time
import z3
from . import eng, fl, spec, stl
from .eng import *
from .fl import F
from .front import Ty, parse_ty, node_ty, tystr


class NS:
    """named views of one state"""

    def __init__(self, S, locs, vals=None):
        self.__dict__['S'] = S
        self.__dict__['_locs'] = locs
        self.__dict__['_vals'] = vals or {}

    def __getattr__(self, name):
        if name in self._vals:
            return self._vals[name]
        l = self._locs.get(name)
        if l is None:
            raise AttributeError(name)
        if isinstance(l, Loc):
            return spec.wrap(self.S, l)
        return l

    def at(self, name):
        """location of a parameter or (dotted) member"""
        head, _, rest = name.partition('.')
        l = self._locs[head]
        if not rest:
            return l
        v = spec.wrap(self.S, l)
        return v.at(rest)


class Contract:
    def __init__(self, fn, nparams=None, params=(), requires=None, ensures=None, modifies=None, invariants=None, modular=False,
                 allocates=True, setup=None, defs=None, assumes=None, nanable=(), ret=None, cls=None, gen=None, pid=None, name=None,
                 pure=False, budget=None, kinds=None, note='', match=None, bounded=None, roots=None, ghosts=(), concrete=None, cpre=None, cpost=None, ncases=400, trusted=(), units=None, globals=None, keeps=None, unitfam=(), rewrites=None, ghostfacts=None, skip=(), unitloops=False, unitout=(), cutloops=False):
        self.skip = skip        # automatic loop invariant candidates (regular expressions) not to try
        self.ghostfacts = ghostfacts    # facts that define ghost functions (not preconditions: true of a suitable choice of the functions)
        self.rewrites = rewrites    # (location, value) equal under the preconditions: the initial contents are written that way
        self.keeps, self.unitfam = keeps, unitfam
        self.unitloops = unitloops
        self.cutloops = cutloops
        self.unitout = unitout
        self.globals = dict(globals or {})    # name -> static data member the contract speaks about
        self.units = units
        self.concrete, self.cpre, self.cpost, self.ncases, self.trusted = concrete, cpre, cpost, ncases, list(trusted)
        self.ghosts = list(ghosts)
        self.key = fn
        self.fn = fn
        self.nparams = nparams
        self.params = list(params)
        self.requires = requires if not units else (lambda p: (list(requires(p)) if requires else []) + [('unit quaternion', spec.Eq(q_sq(q), F.of(1) if not spec.CONC else 1.0)) for q in units(p)])
        self.ensures = ensures if not unitout else (lambda p, q: list(ensures(p, q) if ensures else []) + [('%s leaves with unit length' % nm, spec.Eq(q_sq(getattr(q, nm)), F.of(1) if not spec.CONC else 1.0)) for nm in unitout])
        self.modifies = modifies
        self.invariants = invariants
        self.modular = modular
        self.allocates = allocates
        self.setup = setup
        self.defs = defs
        self.nanable = nanable
        self.gen = gen
        self.pid = pid
        self.budget = budget
        self.note = note
        self.match = match
        self.name = name or fn
        self.bounded = bounded
        self.roots = roots

    # ------------------------------------------------------ lookup
    def find(self, prog):
        c = [d for d in prog.funcs.get(self.fn, [])]
        if self.match:
            c = [d for d in c if self.match in tystr(d) or self.match in tystr(d).replace('ESKF_VIO_BACKEND::', '')]
        if self.nparams is not None:
            c = [d for d in c if len(params_of(d)) == self.nparams]
        if not c:
            raise Unsupported('function %s not found' % self.fn)
        return c[0]

    # ------------------------------------------------------ views
    def ns(self, S, locs, ret=None):
        v = {}
        if ret is not None:
            v['ret'] = ret
        return NS(S, locs, v)

    def locs_of(self, d, env):
        out = {}
        if 'this' in env and env['this'] is not None:
            out['this'] = env['this']
        for nm, p in zip(self.params, params_of(d)):
            out[nm] = env[p['id']]
        for nm, g in self.globals.items():
            out[nm] = self.global_loc(eng.E.prog, g)
        return out

    def global_loc(self, prog, g):
        cls, _, f = g.rpartition('::')
        node = prog.records[cls].static[f]
        return Loc(('G!' + (node.get('mangledName') or f),), (), resolve(node_ty(node), cls))

    # ------------------------------------------------------ at a call site
    def apply(self, x, d, env):
        E = eng.E
        locs = self.locs_of(d, env)
        S0 = spec.Frozen(dict(E.H), E.alloc_now())
        p = self.ns(S0, locs)
        if self.requires:
            for nm, f in self.requires(p):
                E.oblige('precondition of %s: %s' % (self.name, nm), f, kind='precondition')
        if self.allocates:
            a = E.fresh_int('alloc')
            E.assume(a >= E.alloc_now())
            E.alloc, E.nalloc = a, 0
        mods = list(self.modifies(p)) if self.modifies else []
        for m in mods:
            havoc_mod(m)
        from . import loops
        for nm in self.unitout:
            # promised unit by the postcondition: the value gets a name with that fact attached
            l = locs[nm]
            if not l.idx and E.kinds.get(l.path, (0,))[0] == 'quat':
                loops.havoc_leaf(l.path, (), {loops.unit_name(l.path)})
        rt = ret_type(d)
        ret = None
        if rt.k != 'void':
            k = kind_of(rt)
            if k is None:
                ret = x.local('ret', rt)
                for sp, xs, kk in layout(rt):
                    E.reg(ret.path + sp, kk, list(xs))
            else:
                ret = E.fresh_val(k, 'ret')
        if self.defs:
            S1 = spec.Frozen(dict(E.H), E.alloc_now())
            for loc, v in self.defs(p, self.ns(S1, locs, view_ret(S1, ret))):
                if loc == 'ret':
                    ret = v
                else:
                    stl.st(loc, v)
        S1 = spec.Frozen(dict(E.H), E.alloc_now())
        q = self.ns(S1, locs, view_ret(S1, ret))
        if self.ensures:
            for nm, f in self.ensures(p, q):
                E.assume_formula(f)
        E.log += (('call', self.fn, p, q),)
        return ret

    # ------------------------------------------------------ verification
    def verify(self, E, x, tier='quick'):
        d = self.find(E.prog)
        x.root_fn = d
        E.fn_name = self.name
        E.budget = self.budget
        E.t0 = time.time()
        E.nanable = set(self.nanable)
        env = {'#cls': d.get('_cls')}
        if d.get('_cls') and d.get('storageClass') != 'static' and not is_static(E.prog, d):
            env['this'] = Loc(('this',), (), Ty('class', d['_cls']))
        for p_, nm in zip(params_of(d), self.params):
            t = resolve(node_ty(p_), d.get('_cls'))
            u = t.a[0] if t.k == 'ref' else t
            if u.k == 'eigen' or u.k == 'other':
                if t.k == 'ref' and 'MatrixBase' in tystr(p_) or 'QuaternionBase' in tystr(p_):
                    from .front import tmpl, _strip_cv
                    nm_, a = tmpl(_strip_cv(tystr(p_)).rstrip('&').strip().replace('const ', ''))
                    u = parse_ty(a[0] if a[0].startswith('Eigen::') else 'Eigen::' + a[0])
                    if u.k == 'other' or u.k == 'eigen':
                        raise Unsupported('parameter type %s' % tystr(p_))
            loc = Loc(('arg.' + nm,), (), u)
            if u.k == 'ptr':
                E.H[loc.path] = LVal(PtrV(Loc(('arg.*' + nm,), (), u.a[0]), False))
                E.reg(loc.path, ('py',), [])
            env[p_['id']] = loc
        if len(params_of(d)) != len(self.params):
            raise Unsupported('%s has %d parameters' % (self.fn, len(params_of(d))))
        locs = self.locs_of(d, env)
        for nm, t in self.ghosts:
            locs[nm] = Loc(('ghost.' + nm,), (), parse_ty(t))
        E.unitfam = set(self.unitfam)
        E.unitloops = self.unitloops
        E.cutloops = self.cutloops
        if self.setup:
            self.setup(E, locs)
        S0 = spec.Frozen(dict(E.H), E.alloc)
        p = self.ns(S0, locs)
        E.frames = [env]
        E.pre_view = p
        E.view = lambda S: self.ns(S, locs)
        E.frame_ctx = (frame_locs(list(self.modifies(p))), S0) if self.modifies else None
        reqs = list(self.requires(p)) if self.requires else []
        for nm, f in reqs:
            E.assume_formula(f)
        if self.ghostfacts:
            for nm, f in self.ghostfacts(p):
                E.assume_formula(f)
        if self.rewrites:
            for loc, v in self.rewrites(p):
                E.oblige('initial value of %s as written' % loc, spec.Eq(stl.ld(loc), v), kind='lemma')
                stl.st(loc, v)
            S0.H = dict(E.H)
        if self.units:
            # the assumed |q| = 1 as a rewriting rule w^2 = 1 - x^2 - y^2 - z^2
            for u in self.units(p):
                fl.declare_unit(u.c)
        r = E.sat(True, ms=5000)
        if r == 'unsat':
            E.obls.append(dict(name='precondition is satisfiable', fn=self.name, kind='vacuity', status='fail', info='contradictory precondition', t=0, where=None, path=[]))
            return
        E.pool = (lambda k: self.invariants(k)) if self.invariants else None
        E.keeps_pool = self.keeps
        E.skip = self.skip
        ends = [0]
        body = x.body_of(d)
        if body is None:
            raise Unsupported('no body')
        rt = ret_type(d)

        def run():
            E.frames = [dict(env)]
            try:
                x.ex(body)
            except ReturnEx as e:
                return e.v
            return None

        def end(kind, v):
            ends[0] += 1
            if kind in ('break', 'continue', 'exit'):
                raise Unsupported('stray control flow')
            if isinstance(v, Loc) and kind_of(v.ty) is not None:
                v = stl.ld(v)
            if rt.k in ('bool', 'int', 'float') and v is not None:
                v = x.conv(v, rt)
            S1 = spec.Frozen(dict(E.H), E.alloc_now())
            q = self.ns(S1, locs, view_ret(S1, v))
            self.check_post(E, p, q, S0, S1)
        E.explore(run, end, limit=3000)
        E.obls.append(dict(name='some execution reaches the end', fn=self.name, kind='vacuity', status='ok' if ends[0] else 'fail', info='%d paths' % ends[0], t=0, where=None, path=[]))

    def check_post(self, E, p, q, S0, S1):
        if self.defs:
            for k, (loc, v) in enumerate(self.defs(p, q)):
                if loc == 'ret':
                    E.oblige('returns the specified value', spec.Eq(q.ret, v), kind='post')
                else:
                    E.oblige('final value of %s' % loc, spec.Eq(stl.ld(loc), v), kind='post')
        if self.ensures:
            for nm, f in self.ensures(p, q):
                E.oblige(nm, f, kind='post')
        if self.modifies is not None:
            mods = list(self.modifies(p)) + [l for l, v in (self.defs(p, q) if self.defs else []) if l != 'ret']
            frame(E, mods, S0, S1)


def q_sq(q):
    from . import egn
    if spec.CONC:
        return sum(c * c for c in q.c)
    return egn.qsq(q)


def view_ret(S, v):
    if isinstance(v, RefV):
        return spec.RV(S, v, Ty('class', v.cls))
    if isinstance(v, Loc):
        return spec.wrap(S, v)
    return v


def params_of(d):
    return [p for p in d.get('inner', []) or [] if p.get('kind') == 'ParmVarDecl']


def is_static(prog, d):
    if d.get('storageClass') == 'static':
        return True
    m = d.get('mangledName')
    for x in prog.decl.values():
        if x.get('mangledName') == m and x.get('storageClass') == 'static':
            return True
    return False


def ret_type(d):
    s = tystr(d)
    depth = 0
    # 'ret (params) const'
    i = s.find('(')
    # template return types contain no '(' in this code base
    return resolve(parse_ty(s[:i].strip()), d.get('_cls'))


class Heap:
    """modifies entry: field (path) of objects of a class, for references satisfying a condition"""

    def __init__(self, cls, field=None, cond=None):
        self.cls, self.field, self.cond = cls, field, cond


class Part:
    """modifies entry: a location, only where cond(extra indices) holds"""

    def __init__(self, loc, cond):
        self.loc, self.cond = loc, cond


def mloc(m):
    if isinstance(m, (spec.V, spec.SeqV, spec.MapV)):
        return m.loc
    if isinstance(m, spec.RV):
        return m.obj.loc
    return m


def havoc_mod(m):
    E = eng.E
    from .loops import havoc_leaf
    if isinstance(m, Heap):
        base = (m.cls,) + (tuple(m.field.split('.')) if m.field else ())
        rec = E.prog.records[m.cls]
        for sp, xs, kk in layout(Ty('class', m.cls)):
            path = (m.cls,) + sp
            if path[:len(base)] != base:
                continue
            E.reg(path, kk, [INT] + list(xs))
            old = E.leaf(path)
            havoc_leaf(path, ())
            if m.cond is not None:
                new = E.H[path]
                E.H[path] = LSel(old, new, m.cond)
        return
    loc = mloc(m)
    if loc is None:
        return
    k = kind_of(loc.ty)
    if k is not None:
        E.reg(loc.path, k, stl.sorts_of(loc.idx))
        havoc_leaf(loc.path, loc.idx)
        return
    for sp, xs, kk in layout(loc.ty):
        E.reg(loc.path + sp, kk, stl.sorts_of(loc.idx) + list(xs))
        havoc_leaf(loc.path + sp, loc.idx)


class LSel:
    """new contents where cond(ref), old elsewhere"""

    def __init__(self, old, new, cond):
        self.old, self.new, self.cond = old, new, cond

    def read(self, idx):
        c = spec.to_z3(self.cond(idx[0]))
        return eng.E.pick(c, lambda: self.new.read(idx), lambda: self.old.read(idx))


def frame_locs(mods):
    return [m for m in (mloc(x) for x in mods) if m is not None]


def frame_formula(E, path, leaf, old, locs, S0):
    """path holds the old contents outside the modifies clause (None: may change everywhere)"""
    from .loops import nest
    r = str(path[0])
    allowed = []
    for m in locs:
        if isinstance(m, Heap):
            base = (m.cls,) + (tuple(m.field.split('.')) if m.field else ())
            if path[:len(base)] == base:
                if m.cond is None:
                    return None
                allowed.append(lambda a, m=m: m.cond(a[0]))
            continue
        if path[:len(m.path)] == m.path:
            if not m.idx:
                return None
            allowed.append(lambda a, m=m: band(*[eqt(u, v) for u, v in zip(a, m.idx)]))
    sorts = E.sorts[path]
    if E.kinds[path][0] == 'py':
        return None
    heap = r in E.prog.records and sorts

    def same(a):
        cs = []
        if heap:
            cs.append(z3.And(zi(a[0]) >= 1, zi(a[0]) < zi(S0.alloc)))
        for f in allowed:
            cs.append(bnot(spec.to_z3(f(a))))
        return spec.Imp(band(*cs), lambda: spec.Eq(leaf.read(tuple(a)), old.read(tuple(a))))
    return nest(list(sorts), same)


def frame_old(E, path, S0):
    return S0.H.get(path) or E.base.get(path) or E.leaf(path, H=S0.H)


def frame(E, mods, S0, S1):
    """nothing outside the modifies clause changed"""
    locs = frame_locs(mods)
    for path, leaf in S1.H.items():
        r = str(path[0])
        if r.startswith('L!') or r.startswith('S!'):
            continue
        old = S0.H.get(path) or E.base.get(path)
        if old is leaf:
            continue
        f = frame_formula(E, path, leaf, frame_old(E, path, S0), locs, S0)
        if f is not None:
            E.oblige('frame: %s unchanged' % '.'.join(map(str, path)), f, kind='frame')
