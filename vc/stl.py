"""Models of the standard containers, smart pointers and iterators (trusted library contracts)."""
import z3
from . import eng, fl
from .eng import *
from .fl import F
from .front import Ty

UMAX = (1 << 32)


def ld(x):
    """value of an lvalue; aggregates stay locations"""
    if isinstance(x, Loc):
        k = kind_of(x.ty)
        if k is None:
            return x
        guard(x)
        return eng.E.rd(x.path, x.idx, k)
    if hasattr(x, 'load'):
        return x.load()
    return x


def guard(x):
    for c, pos in x.g:
        lo, hi = rng(c)
        eng.E.oblige('element access inside container', band(zi(lo) <= zi(pos), zi(pos) < zi(hi)) if not (isinstance(pos, int) and isinstance(lo, int) and isinstance(hi, int)) else lo <= pos < hi)


def st(x, v):
    E = eng.E
    if isinstance(x, Loc):
        k = kind_of(x.ty)
        if k is None:
            copy_agg(x, v)
            return
        guard(x)
        if isinstance(v, Loc) or hasattr(v, 'load'):
            v = ld(v)
        E.wr(x.path, x.idx, k, coerce(v, k))
        return
    if hasattr(x, 'store'):
        x.store(v)
        return
    raise Unsupported('store to %r' % (x,))


def coerce(v, k):
    if k[0] == 'float':
        if isinstance(v, M):
            return v.get(0, 0)
        return F.of(v) if not isinstance(v, bool) else F.of(int(v))
    if k[0] == 'ref' and isinstance(v, RefV) and v.cls != k[1]:
        return RefV(k[1], v.ref)
    if k[0] == 'bool' and isinstance(v, int) and not isinstance(v, bool):
        return bool(v)
    if k[0] == 'int' and isinstance(v, bool):
        return int(v)
    if k[0] == 'int' and isz(v) and z3.is_bool(v):
        return z3.If(v, 1, 0)
    if k[0] in ('mat', 'dyn') and isinstance(v, M):
        if k[0] == 'mat':
            need_dims(v, k[1], k[2])
            if not v.dense():
                return M(k[1], k[2], [v.get(i, j) for i in range(k[1]) for j in range(k[2])])
            return M(v.rows, v.cols, list(v.lst()))
        if v.dense() and v.rows * v.cols <= 1200:
            v.lst()
            return M(v.rows, v.cols, list(v.d), term=v.term)
        return M(v.rows, v.cols, v.d, v.f, v.term)
    return v


def need_dims(v, r, c):
    ok = band(eqt(v.rows, r), eqt(v.cols, c))
    if ok is not True:
        eng.E.oblige('matrix dimensions match (%s)' % 'fixed size', ok)


def rng(c):
    """lo, hi of a sequence container location"""
    E = eng.E
    if c.ty.k == 'array':
        return 0, c.ty.a[1]
    E.seqty[c.path] = c.ty
    hi = E.rd(c.path + ('#hi',), c.idx, ('int', 64, True))
    if c.ty.k == 'vector':
        return 0, hi
    return E.rd(c.path + ('#lo',), c.idx, ('int', 64, True)), hi


def csize(c):
    E = eng.E
    guard(c)
    if c.ty.k in ('umap', 'map', 'set', 'uset'):
        s = E.rd(c.path + ('#size',), c.idx, ('int', 64, True))
        map_facts(c)
        return s
    lo, hi = rng(c)
    r = sub(hi, lo)
    if isz(r):
        E.assume(band(r >= 0, r < MAXSZ))
    return r


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return z3.simplify(zi(a) + zi(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(zi(a) - zi(b))


def elem(c, pos, g=True):
    return Loc(c.path + ('[]',), c.idx + (pos,), c.ty.a[0], c.g + (((c, pos),) if g else ()))


def set_rng(c, lo, hi):
    E = eng.E
    if c.ty.k != 'vector':
        E.wr(c.path + ('#lo',), c.idx, ('int', 64, True), lo)
    E.wr(c.path + ('#hi',), c.idx, ('int', 64, True), hi)


def sorts_of(idx):
    return [REAL if isinstance(x, F) or (isz(x) and z3.is_real(x)) else INT for x in idx]


def copy_agg(dst, src):
    """copy all leaves of an aggregate"""
    E = eng.E
    if isinstance(src, Obj) and src.k == 'kv':
        for n in ('first', 'second'):
            pass
        raise Unsupported('copy of a map entry')
    if not isinstance(src, Loc):
        raise Unsupported('aggregate copy from %r' % (src,))
    guard(src)
    guard(dst)
    if dst.same(src):
        return
    if dst.ty != src.ty and not (dst.ty.k in ('class',) and src.ty.k == 'class'):
        if dst.ty.k != src.ty.k:
            raise Unsupported('copy %s <- %s' % (dst.ty, src.ty))
    # snapshot the source leaves first
    items = []
    for sp, xs, kk in layout(dst.ty):
        sleaf_path = src.path + sp
        E.reg(sleaf_path, kk, sorts_of(src.idx) + list(xs))
        items.append((sp, xs, kk, E.leaf(sleaf_path)))
    for sp, xs, kk, lf in items:
        if not xs:
            E.wr(dst.path + sp, dst.idx, kk, lf.read(src.idx))
        else:
            si = src.idx
            E.wr_pre(dst.path + sp, dst.idx, kk, sorts_of(dst.idx) + list(xs), lambda rest, lf=lf, si=si: lf.read(si + tuple(rest)))


def temp(ty, name='tmp'):
    E = eng.E
    l = Loc(('L!' + E.fresh(name),), (), ty)
    return l


def undef(k, name='undef'):
    E = eng.E
    if k[0] == 'py':
        return Obj('uninit')
    if k[0] == 'ref':
        return RefV(k[1], 0)
    if k[0] == 'str':
        return Obj('str', z=0)
    if k[0] == 'dyn':
        r = k[1] if k[1] >= 0 else 0
        c = k[2] if k[2] >= 0 else 0
        if k[1] < 0 and k[2] == 1:
            return M(0, 1, [])
        return M(r, c, [])
    return E.fresh_val(k, name)


def default_init(loc):
    """default construction (scalars and fixed-size Eigen objects keep arbitrary contents)"""
    E = eng.E
    t = loc.ty
    k = kind_of(t)
    if k is not None:
        E.wr(loc.path, loc.idx, k, undef(k))
        return
    if t.k in ('vector', 'deque'):
        set_rng(loc, 0, 0)
        return
    if t.k in ('umap', 'map', 'set', 'uset'):
        map_clear(loc)
        return
    if t.k == 'pair':
        for n, tt in zip(('first', 'second'), t.a):
            default_init(loc.sub(n, tt))
        return
    if t.k == 'array':
        return
    if t.k == 'class':
        from . import ev
        ev.X.construct_class(loc, None, [])
        return
    raise Unsupported('default init of %s' % t)


# ------------------------------------------------------------ maps
def has_ite_int(t):
    from . import spec
    return not spec.no_ite(t)


class Enum:
    """an enumeration order of a map's current key set"""

    def __init__(self, fns, ks, size, idx=()):
        fen, frk = fns
        ix = [zi(a) for a in idx]
        self.en = (lambda r: fen(*(ix + [r]))) if ix else fen
        self.rk = (lambda k: frk(*(ix + [k]))) if ix else frk
        self.size = size
        self.ks = ks


def key_z(k):
    if isinstance(k, F):
        return k.z()
    return zi(k)


def key_norm(c, k):
    if c.ty.a[0].k == 'float':
        return F.of(k) if not (isz(k) and z3.is_real(k)) else F(fl.p_atom_z(k))
    return k


def in_dom(c, k):
    return eng.E.rd(c.path + ('#dom',), c.idx + (key_norm(c, k),), ('bool',))


def mval(c, k):
    return Loc(c.path + ('{}',), c.idx + (key_norm(c, k),), c.ty.a[1], c.g)


def dom_leaf(c):
    E = eng.E
    ks = REAL if c.ty.a[0].k == 'float' else INT
    E.reg(c.path + ('#dom',), ('bool',), sorts_of(c.idx) + [ks])
    return E.leaf(c.path + ('#dom',))


def map_facts(c):
    """size 0 <-> no keys, size >= 0"""
    enum_of(c)


def enum_of(c):
    E = eng.E
    lf = dom_leaf(c)
    key = (c.path, tuple(x.get_id() if isz(x) else (fl.p_key(x.p) if isinstance(x, F) else x) for x in c.idx), id(lf))
    reg = E.enums
    ks = REAL if c.ty.a[0].k == 'float' else INT
    size = E.rd(c.path + ('#size',), c.idx, ('int', 64, True))
    e = reg.get(key)
    if e is None:
        # one enumeration function per map family (path and contents), applied to the indices of the map
        flat = all(isinstance(x, int) or (isz(x) and z3.is_int(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not has_ite_int(x)) for x in c.idx)
        fam = ('fns', c.path, id(lf)) if flat else None
        fns = reg.get(fam) if flat else None
        if fns is None:
            nm = '%s#%s#%d' % ('.'.join(map(str, c.path)), '' if flat else ','.join(str(x) for x in c.idx), len(reg))
            ii = [INT] * (len(c.idx) if flat else 0)
            fns = (z3.Function('enum_' + nm, *(ii + [INT, ks])), z3.Function('rank_' + nm, *(ii + [ks, INT])))
            if flat:
                reg[fam] = fns
        e = Enum(fns, ks, size, c.idx if flat else ())
        reg[key] = e
        e.lf = lf
        e.idx = c.idx
        e.ord = c.ty.k in ('map', 'set')
        E.enum_keep.append(lf)
    if E.qd:
        return e
    # facts on the current path (idempotent)
    tag = ('enum', key)
    if not any(t is e for t in E.path_enums):
        E.path_enums.append(e)
        r = z3.Int('er')
        k = z3.Const('ek', ks)
        E.qd += 1
        try:
            def dom(kk):
                return zb(lf.read(c.idx + ((F(fl.p_atom_z(kk)) if ks == REAL else kk),)))
            d1 = dom(e.en(r))
            d2 = dom(k)
        finally:
            E.qd -= 1
        sz = zi(size)
        E.assume(z3.And(sz >= 0, sz < MAXSZ))
        E.assume(z3.ForAll([r], z3.Implies(z3.And(r >= 0, r < sz), z3.And(d1, e.rk(e.en(r)) == r)), patterns=[e.en(r)]))
        body = z3.Implies(d2, z3.And(e.rk(k) >= 0, e.rk(k) < sz, e.en(e.rk(k)) == k))
        pats = [e.rk(k)]
        from . import spec
        sub = spec.name_ites([d2], [k])
        if sub:
            body, d2 = z3.substitute(body, *sub), z3.substitute(d2, *sub)
        if not spec.no_ite(d2):
            d2 = z3.BoolVal(True)
        base = d2 if z3.is_app(d2) and d2.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        E.assume(z3.ForAll([k], body, patterns=pats + ([base] if base is not None else [])))
        if ks == INT:
            t = c.ty.a[0].a
            lo, hi = int_range(('int',) + t)
            E.assume(z3.ForAll([r], z3.And(e.en(r) >= lo, e.en(r) <= hi), patterns=[e.en(r)]))
        if e.ord:
            r2 = z3.Int('er2')
            E.assume(z3.ForAll([r, r2], z3.Implies(z3.And(r >= 0, r < r2, r2 < sz), e.en(r) < e.en(r2)), patterns=[z3.MultiPattern(e.en(r), e.en(r2))]))
    return e


class MapIter:
    """iterator of a map/set: enumeration + rank, or a found key"""

    def __init__(self, cont, enum, pos, key=None, rev=False, lf=None):
        self.cont, self.enum, self.pos, self.key, self.rev, self.lf = cont, enum, pos, key, rev, lf

    def thekey(self):
        if self.key is not None:
            return self.key
        p = self.pos
        if self.rev:
            p = sub(sub(self.enum.size, 1), p)
        k = self.enum.en(zi(p))
        if self.enum.ks == REAL:
            return F(fl.p_atom_z(k))
        return k


def map_clear(c):
    E = eng.E
    ks = REAL if c.ty.a[0].k == 'float' else INT
    E.wr_pre(c.path + ('#dom',), c.idx, ('bool',), sorts_of(c.idx) + [ks], lambda rest: False)
    E.wr(c.path + ('#size',), c.idx, ('int', 64, True), 0)


def map_insert_key(c, k, then=None):
    """insert key when absent; returns presence-before condition"""
    E = eng.E
    k = key_norm(c, k)
    d = in_dom(c, k)
    size = csize(c)
    if E.decide(d):
        return True
    E.wr(c.path + ('#dom',), c.idx + (k,), ('bool',), True)
    E.wr(c.path + ('#size',), c.idx, ('int', 64, True), add(size, 1))
    return False


def map_erase_key(c, k):
    E = eng.E
    k = key_norm(c, k)
    d = in_dom(c, k)
    size = csize(c)
    if E.decide(d):
        E.wr(c.path + ('#dom',), c.idx + (k,), ('bool',), False)
        E.wr(c.path + ('#size',), c.idx, ('int', 64, True), sub(size, 1))
        return 1
    return 0


def kv(c, k):
    if c.ty.k in ('set', 'uset'):
        return k
    return Obj('kv', first=k, second=mval(c, k), cont=c)


# ------------------------------------------------------------ iterators
def it_deref(it):
    E = eng.E
    if isinstance(it, IterV):
        c = it.cont
        if it.rev:
            p = sub(it.pos, 1)
        else:
            p = it.pos
        lo, hi = rng(c)
        E.oblige('iterator dereference inside container', conj_rng(lo, p, hi))
        return elem(c, p)
    if isinstance(it, MapIter):
        c = it.cont
        k = it.thekey()
        if it.key is None:
            E.oblige('iterator dereference inside map', conj_rng(0, it.pos, it.enum.size))
        E.oblige('map iterator still valid', in_dom(c, k))
        return kv(c, k)
    if isinstance(it, RefV):
        return deref(it)
    if isinstance(it, PtrV):
        E.oblige('pointer not null', bnot(it.null))
        if it.loc is None:
            raise Unsupported('dereference of an unknown pointer')
        return it.loc
    raise Unsupported('deref of %r' % (it,))


def conj_rng(lo, p, hi):
    return band(lit(z3.simplify(zi(lo) <= zi(p))), lit(z3.simplify(zi(p) < zi(hi))))


def deref(r):
    E = eng.E
    if isinstance(r.ref, int):
        E.oblige('shared pointer not null', r.ref != 0)
    else:
        E.oblige('shared pointer not null', r.ref != 0)
    return Loc((r.cls,), (r.ref,), Ty('class', r.cls))


def it_step(it, d):
    if isinstance(it, IterV):
        return IterV(it.cont, sub(it.pos, d) if it.rev else add(it.pos, d), it.rev)
    if isinstance(it, MapIter):
        if it.enum is None:
            e = enum_of(it.cont)
            return MapIter(it.cont, e, add(e.rk(key_z(it.key)), d), None, it.rev)
        if it.key is not None:
            return MapIter(it.cont, it.enum, add(it.enum.rk(key_z(it.key)), d), None, it.rev)
        if dom_leaf(it.cont) is not it.enum.lf:
            raise Unsupported('map changed while it is iterated')
        return MapIter(it.cont, it.enum, add(it.pos, d), None, it.rev)
    raise Unsupported('iterator step of %r' % (it,))


def it_eq(a, b):
    if isinstance(a, IterV) and isinstance(b, IterV):
        if not a.cont.same(b.cont):
            raise Unsupported('iterators of different containers compared')
        return eqt(a.pos, b.pos)
    if isinstance(a, MapIter) and isinstance(b, MapIter):
        if a.key is None and b.key is not None:
            a, b = b, a
        if a.key is not None and b.key is None and b.end_flag():
            # found key against end
            return bnot(in_dom_at(a))
        if a.key is None and b.key is None:
            return eqt(a.pos, b.pos)
    raise Unsupported('iterator comparison')


def _end_flag(self):
    return same_term(self.pos, self.enum.size)


MapIter.end_flag = _end_flag


def in_dom_at(it):
    return it.found if hasattr(it, 'found') else True


# ------------------------------------------------------------ container methods
def seq_insert_shift(c, pos, n, newval):
    """insert n elements before absolute position pos; newval(j) element source for j in [0,n)"""
    E = eng.E
    lo, hi = rng(c)
    et = c.ty.a[0]
    for sp, xs, kk in layout(et):
        p = c.path + ('[]',) + sp
        E.reg(p, kk, sorts_of(c.idx) + [INT] + list(xs))
        lf = E.leaf(p)

        def fn(rest, lf=lf, sp=sp):
            q = rest[0]
            return E.pick(lt(q, pos), lambda: lf.read(c.idx + rest),
                          lambda: E.pick(lt(q, add(pos, n)), lambda: newval(sp, sub(q, pos), rest[1:]),
                                         lambda: lf.read(c.idx + (sub(q, n),) + rest[1:])))
        E.wr_pre(p, c.idx, kk, sorts_of(c.idx) + [INT] + list(xs), fn)
    set_rng(c, lo, add(hi, n))


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return lit(z3.simplify(zi(a) < zi(b)))


def seq_erase(c, a, b):
    """erase absolute positions [a, b)"""
    E = eng.E
    lo, hi = rng(c)
    n = sub(b, a)
    et = c.ty.a[0]
    for sp, xs, kk in layout(et):
        p = c.path + ('[]',) + sp
        E.reg(p, kk, sorts_of(c.idx) + [INT] + list(xs))
        lf = E.leaf(p)

        def fn(rest, lf=lf):
            q = rest[0]
            return E.pick(lt(q, a), lambda: lf.read(c.idx + rest), lambda: lf.read(c.idx + (add(q, n),) + rest[1:]))
        E.wr_pre(p, c.idx, kk, sorts_of(c.idx) + [INT] + list(xs), fn)
    set_rng(c, lo, sub(hi, n))


def fill_from(c, start, val):
    """elements at absolute positions >= start become val (python value or default)"""
    E = eng.E
    et = c.ty.a[0]
    for sp, xs, kk in layout(et):
        p = c.path + ('[]',) + sp
        E.reg(p, kk, sorts_of(c.idx) + [INT] + list(xs))
        lf = E.leaf(p)
        if val is None:
            if sp == () and kk[0] in ('int',):
                v = 0
            elif sp == () and kk[0] == 'bool':
                v = False
            elif sp == () and kk[0] == 'float':
                v = F.of(0)
            elif kk[0] == 'ref':
                v = RefV(kk[1], 0)
            elif sp and sp[-1] in ('#lo', '#hi', '#size'):
                v = 0
            elif sp and sp[-1] == '#dom':
                v = False
            else:
                v = None
        else:
            v = val(sp)
        if v is None:
            nm = E.fresh('fill')
            so = sorts_of(c.idx) + [INT] + list(xs)
            b = LBase(nm, kk, so, None)

            def fn(rest, lf=lf, b=b):
                return E.pick(lt(rest[0], start), lambda: lf.read(c.idx + rest), lambda: b.read(c.idx + rest))
        else:
            def fn(rest, lf=lf, v=v):
                return E.pick(lt(rest[0], start), lambda: lf.read(c.idx + rest), lambda: v)
        E.wr_pre(p, c.idx, kk, sorts_of(c.idx) + [INT] + list(xs), fn)


def max0(x):
    return x


def method(x, c, name, args, n):
    """member call on a container location; args are unevaluated nodes; x = interpreter"""
    E = eng.E
    t = c.ty
    A = lambda i: ld(x.ev(args[i]))
    guard(c)
    if t.k in ('vector', 'deque', 'array'):
        lo, hi = rng(c)
        if name == 'size':
            return csize(c)
        if name == 'empty':
            csize(c)
            return eqt(lo, hi)
        if name == 'clear':
            set_rng(c, lo if t.k == 'deque' else 0, lo if t.k == 'deque' else 0)
            return None
        if name in ('reserve', 'shrink_to_fit'):
            for a in args:
                x.ev(a)
            return None
        if name in ('front', 'back'):
            csize(c)
            E.oblige('%s() of a non-empty container' % name, lt(lo, hi))
            return elem(c, lo if name == 'front' else sub(hi, 1))
        if name in ('emplace_back', 'push_back'):
            csize(c)
            src = x.ev_construct(t.a[0], args)
            E.wr_hint = None
            set_rng(c, lo, add(hi, 1))
            st(elem(c, hi, False), src)
            return elem(c, hi)
        if name in ('emplace_front', 'push_front'):
            src = x.ev_construct(t.a[0], args)
            p = sub(lo, 1)
            set_rng(c, p, hi)
            st(elem(c, p, False), src)
            return elem(c, p)
        if name == 'pop_front':
            E.oblige('pop_front() of a non-empty container', lt(lo, hi))
            set_rng(c, add(lo, 1), hi)
            return None
        if name == 'pop_back':
            E.oblige('pop_back() of a non-empty container', lt(lo, hi))
            set_rng(c, lo, sub(hi, 1))
            return None
        if name == 'begin' or name == 'cbegin':
            csize(c)
            return IterV(c, lo)
        if name == 'end' or name == 'cend':
            csize(c)
            return IterV(c, hi)
        if name in ('rbegin', 'crbegin'):
            csize(c)
            return IterV(c, hi, True)
        if name in ('rend', 'crend'):
            csize(c)
            return IterV(c, lo, True)
        if name in ('at', 'operator[]'):
            return index(c, A(0), name == 'at')
        if name == 'resize':
            nn = A(0)
            val = None
            if len(args) > 1:
                v = ld(x.ev(args[1]))
                if isinstance(v, Loc):
                    tv = temp(v.ty)
                    copy_agg(tv, v)
                    lv = {sp: E.leaf(tv.path + sp) for sp, xs, kk in layout(tv.ty)}
                    raise Unsupported('resize with aggregate value')
                kk0 = kind_of(t.a[0])
                v = coerce(v, kk0)
                val = lambda sp: v
            fill_from(c, hi, val)
            set_rng(c, lo, add(lo, nn))
            return None
        if name == 'assign' and len(args) == 2:
            nn = A(0)
            v = ld(x.ev(args[1]))
            if isinstance(nn, (IterV, MapIter)):
                raise Unsupported('assign from iterators')
            v = coerce(v, kind_of(t.a[0]))
            fill_from(c, lo, lambda sp: v)
            set_rng(c, lo, add(lo, nn))
            return None
        if name == 'erase':
            a = A(0)
            if len(args) == 1:
                b = it_step(a, 1)
            else:
                b = A(1)
            E.oblige('erase position inside container', band(conj_rng(lo, a.pos, add(hi, 1)), conj_rng(a.pos, b.pos, add(hi, 1))))
            if len(args) == 1:
                E.oblige('erase of an existing element', lt(a.pos, hi))
            seq_erase(c, a.pos, b.pos)
            return IterV(c, a.pos)
        if name == 'insert':
            a = A(0)
            if len(args) == 2:
                src = ld(x.ev(args[1]))
                if isinstance(src, Loc):
                    raise Unsupported('insert of aggregate')
                src = coerce(src, kind_of(t.a[0]))
                seq_insert_shift(c, a.pos, 1, lambda sp, j, rest: src)
                return IterV(c, a.pos)
            if len(args) == 3:
                b, e = A(1), A(2)
                if not isinstance(b, IterV) or b.rev:
                    raise Unsupported('range insert')
                sc = b.cont
                leaves = {}
                for sp, xs, kk in layout(sc.ty.a[0]):
                    p = sc.path + ('[]',) + sp
                    E.reg(p, kk, sorts_of(sc.idx) + [INT] + list(xs))
                    leaves[sp] = E.leaf(p)
                seq_insert_shift(c, a.pos, sub(e.pos, b.pos), lambda sp, j, rest: leaves[sp].read(sc.idx + (add(b.pos, j),) + tuple(rest)))
                return IterV(c, a.pos)
        if name == 'swap':
            o = x.ev(args[0])
            t1 = temp(t)
            copy_agg(t1, c)
            copy_agg(c, o)
            copy_agg(o, t1)
            return None
        if name == 'data':
            raise Unsupported('data()')
    else:
        if name == 'size':
            return csize(c)
        if name == 'empty':
            return eqt(csize(c), 0)
        if name == 'clear':
            map_clear(c)
            return None
        if name == 'reserve':
            x.ev(args[0])
            return None
        if name in ('begin', 'cbegin'):
            e = enum_of(c)
            return MapIter(c, e, 0)
        if name in ('end', 'cend'):
            e = enum_of(c)
            return MapIter(c, e, e.size)
        if name in ('rbegin', 'crbegin'):
            e = enum_of(c)
            return MapIter(c, e, 0, None, True)
        if name in ('rend', 'crend'):
            e = enum_of(c)
            return MapIter(c, e, e.size, None, True)
        if name == 'find':
            k = key_norm(c, A(0))
            e = enum_of(c)
            it = MapIter(c, e, None, k)
            it.found = in_dom(c, k)
            return it
        if name in ('count', 'contains'):
            d = in_dom(c, key_norm(c, A(0)))
            if name == 'contains':
                return d
            return int(d) if isinstance(d, bool) else z3.If(d, 1, 0)
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            if len(args) == 1:
                a = ld(x.ev(args[0]))
                if t.k in ('set', 'uset'):
                    k, v = a, None
                elif isinstance(a, Loc) and a.ty.k == 'pair':
                    k, v = ld(a.sub('first', a.ty.a[0])), a.sub('second', a.ty.a[1])
                elif isinstance(a, Obj) and a.k in ('kv', 'pairv'):
                    k, v = ld(a.first), a.second
                else:
                    raise Unsupported('map insert of %r' % (a,))
            else:
                k, v = A(0), x.ev(args[1])
            k = key_norm(c, x.conv_int(k, t.a[0]) if t.a[0].k == 'int' else k)
            was = map_insert_key(c, k)
            if (not was or name == 'insert_or_assign') and v is not None:
                st(mval(c, k), ld(v))
            it = MapIter(c, None, None, k)
            it.found = True
            return Obj('pairv', first=it, second=not was)
        if name == 'erase':
            a = A(0)
            if isinstance(a, MapIter):
                k = a.thekey()
                E.oblige('erase of an existing map entry', in_dom(c, k))
                nxt = None
                map_erase_key(c, k)
                return Obj('uninit')
            return map_erase_key(c, x.conv_int(a, t.a[0]) if t.a[0].k == 'int' else a)
        if name in ('operator[]', 'at'):
            return index(c, A(0), name == 'at')
    raise Unsupported('container method %s::%s' % (t.k, name))


def index(c, i, at=False):
    E = eng.E
    if c.ty.k in ('umap', 'map'):
        k = key_norm(c, i)
        if at:
            E.oblige('map::at of an existing key', in_dom(c, k))
            return mval(c, k)
        if not map_insert_key(c, k):
            default_value_init(mval(c, k))
        return mval(c, k)
    lo, hi = rng(c)
    p = add(lo, i)
    csize(c)
    E.oblige('index inside container', conj_rng(lo, p, hi))
    return elem(c, p)


def default_value_init(loc):
    E = eng.E
    k = kind_of(loc.ty)
    if k is not None and k[0] in ('int', 'bool', 'float'):
        st(loc, {'int': 0, 'bool': False, 'float': F.of(0)}[k[0]])
    else:
        default_init(loc)
