"""Interpreter of the clang AST of /repo's functions over symbolic state."""
import struct
from fractions import Fraction
import z3
from . import eng, fl, stl, egn
from .eng import *
from .fl import F
from .front import Ty, parse_ty, node_ty, tystr, tmpl, _strip_cv
from .stl import ld, st, temp, add, sub, default_init, copy_agg, kv
from .egn import is_eig, MRef

X = None
U32 = Ty('int', 32, False)
SKIP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr')


def fconst(v, bits):
    if bits == 32:
        v = struct.unpack('f', struct.pack('f', v))[0]
    return F.of(Fraction(v))


def strip(n):
    while n.get('kind') in SKIP or (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp',)):
        n = n['inner'][0]
    return n


def is_lv(v):
    return isinstance(v, (Loc, MRef)) or isinstance(v, Obj) and v.k in ('kv', 'pairv')


class NeedFork(Exception):
    pass


class Interp:
    def __init__(self, prog):
        global X
        X = self
        self.prog = prog
        self.consts = {}
        self.contracts = {}
        self.root_fn = None
        self.opaque_cls = {'TickTock'}
        self.clsctx = []

    # ---------------------------------------------------------- env
    def env(self):
        return eng.E.frames[-1]

    def this(self):
        return self.env()['this']

    def local(self, name, ty):
        E = eng.E
        return Loc(('L!%s!%s' % (E.fresh(name or 'v'), abs(hash(ty)) % 9973),), (), ty)

    # ---------------------------------------------------------- dispatch
    def ev(self, n):
        k = n['kind']
        while k in SKIP:
            n = n['inner'][0]
            k = n['kind']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('expression %s' % k)
        return f(n)

    def val(self, n):
        return ld(self.ev(n))

    def ty(self, n):
        t = node_ty(n)
        c = self.env().get('#cls') if eng.E.frames else None
        return resolve(t, c)

    # ---------------------------------------------------------- literals
    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        t = node_ty(n)
        return fconst(float(n['value']), t.a[0] if t.k == 'float' else 64)

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def e_StringLiteral(self, n):
        v = n['value']
        try:
            import ast
            v = ast.literal_eval(v)
        except Exception:
            v = v.strip('"')
        return Obj('str', parts=(v,), z=None)

    def e_CXXNullPtrLiteralExpr(self, n):
        return Obj('nullptr')

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported('sizeof')

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(self.ty(n))

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def zero(self, t):
        k = kind_of(t)
        if k is None:
            l = self.local('zero', t)
            default_init(l)
            return l
        if k[0] == 'int':
            return 0
        if k[0] == 'bool':
            return False
        if k[0] == 'float':
            return F.of(0)
        if k[0] == 'ref':
            return RefV(k[1], 0)
        return stl.undef(k)

    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.ev(n['inner'][0])
        return Obj('default')

    def e_CXXThisExpr(self, n):
        return PtrV(self.this(), False)

    # ---------------------------------------------------------- references
    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            env = self.env()
            v = env.get(d['id'])
            if v is not None:
                return v
            return self.global_var(n, d)
        if k == 'EnumConstantDecl':
            return self.enum_const(n, d)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return Obj('fn', node=n, decl=d)
        raise Unsupported('reference to %s' % k)

    def enum_const(self, n, d):
        key = ('enum', d['id'])
        if key in self.consts:
            return self.consts[key]
        node = self.prog.find(n['_tu'], d['id'])
        if node is None:
            raise Unsupported('enum constant %s' % d.get('name'))
        # value: explicit ConstantExpr or previous + 1
        for e in self.prog.decl.values():
            if e.get('kind') == 'EnumDecl' and e.get('_tu') == n['_tu']:
                v = -1
                for c in e.get('inner', []) or []:
                    if c.get('kind') != 'EnumConstantDecl':
                        continue
                    v = v + 1
                    if c.get('inner'):
                        x = strip(c['inner'][0])
                        vv = c['inner'][0].get('value')
                        if vv is None:
                            while x.get('kind') == 'ImplicitCastExpr':
                                x = strip(x['inner'][0])
                            vv = x.get('value')
                        v = int(vv)
                    self.consts[('enum', c['id'])] = v
        return self.consts[key]

    def global_var(self, n, d):
        node = self.prog.find(n['_tu'], d['id'])
        if d.get('name') in ('cout', 'cerr', 'clog'):
            return Obj('stream')
        if node is None:
            raise Unsupported('external variable %s' % d.get('name'))
        if node.get('constexpr') or 'const ' in tystr(node):
            key = ('var', node.get('mangledName') or d['id'])
            if key not in self.consts and node.get('inner'):
                E = eng.E
                E.frames.append({})
                try:
                    v = ld(self.ev(node['inner'][0]))
                finally:
                    E.frames.pop()
                kk = kind_of(self.ty(node))
                if isinstance(v, Loc):
                    return v
                self.consts[key] = self.conv(v, self.ty(node))
            if key in self.consts:
                return self.consts[key]
        return Loc(('G!' + (node.get('mangledName') or d.get('name')),), (), self.ty(node))

    def e_MemberExpr(self, n):
        b = self.ev(n['inner'][0])
        name = n['name']
        if n.get('isArrow'):
            b = self.pointee(b)
        elif isinstance(b, RefV) or isinstance(b, PtrV):
            b = b
        return self.member(b, name, n)

    def pointee(self, b):
        b = ld(b)
        if isinstance(b, (PtrV, RefV, IterV, stl.MapIter)):
            return stl.it_deref(b)
        if isinstance(b, Obj):
            return b
        raise Unsupported('-> on %r' % (b,))

    def member(self, b, name, n=None):
        if isinstance(b, Loc):
            t = b.ty
            if t.k == 'pair':
                return b.sub(name, t.a[0] if name == 'first' else t.a[1])
            if t.k == 'class':
                rec = self.prog.records.get(t.a[0])
                if rec is None:
                    raise Unsupported('member %s of %s' % (name, t))
                for f, ts, node in rec.fields:
                    if f == name:
                        ft = field_ty(t.a[0], ts)
                        if ft.k == 'ref':
                            return ld(b.sub(name, Ty('ptr', ft.a[0]))).loc
                        return b.sub(name, ft)
                if name in rec.static:
                    node = rec.static[name]
                    return Loc(('G!' + (node.get('mangledName') or name),), (), self.ty(node))
            raise Unsupported('member %s of %s' % (name, t))
        if isinstance(b, Obj) and b.k in ('kv', 'pairv'):
            return getattr(b, name)
        raise Unsupported('member %s of %r' % (name, b))

    # ---------------------------------------------------------- casts
    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        c = n['inner'][0]
        if ck == 'LValueToRValue':
            return ld(self.ev(c))
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(c)
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            return self.ev(c)
        if ck == 'NullToPointer':
            return Obj('nullptr')
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.conv(self.val(c), self.ty(n), self.ty(c))
        if ck == 'ToVoid':
            self.ev(c)
            return None
        raise Unsupported('cast %s' % ck)

    def e_CXXStaticCastExpr(self, n):
        c = n['inner'][-1]
        t = self.ty(n)
        if t.k in ('int', 'float', 'bool') or n.get('castKind') in ('IntegralCast', 'FloatingCast'):
            return self.conv(self.val(c), t, self.ty(c))
        if n.get('castKind') == 'ToVoid':
            self.ev(c)
            return None
        return self.ev(c)

    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr
    e_CXXConstCastExpr = e_CXXStaticCastExpr

    def conv(self, v, t, frm=None):
        v = ld(v)
        if isinstance(v, Obj) and v.k == 'opaque':
            k = kind_of(t)
            return eng.E.fresh_val(k, 'opq') if k and k[0] in ('int', 'float', 'bool') else v
        if t.k == 'float':
            if isinstance(v, M):
                v = v.get(0, 0)
            if isinstance(v, bool):
                v = int(v)
            elif isz(v) and z3.is_bool(v):
                v = z3.If(v, 1, 0)
            v = F.of(v)
            if t.a and t.a[0] == 32 and v.nf is False and v.const() is not None:
                return fconst(float(v.const()), 32)    # a constant is rounded as the compiler rounds it
            return v
        if t.k == 'bool':
            return self.truth(v)
        if t.k == 'int' or (t.k == 'class' and is_enum(t.a[0])):
            return self.conv_int(v, t, frm)
        return v

    def conv_int(self, v, t, frm=None):
        v = ld(v)
        if isinstance(v, M):
            v = v.get(0, 0)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Obj) and v.k == 'opaque':
            return eng.E.fresh_val(kind_of(t), 'opq')
        if t.k != 'int':
            return v
        lo, hi = int_range(('int',) + t.a)
        if isinstance(v, F):
            c = v.const()
            if c is not None:
                r = int(c)
                return r if lo <= r <= hi else eng.E.fresh_int('fcast')
            z = v.z()
            r = z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))
            eng.E.oblige('float to integer conversion in range', z3.And(r >= lo, r <= hi)) if False else None
            return r
        if isz(v) and z3.is_bool(v):
            return z3.If(v, 1, 0)
        if isinstance(v, int):
            m = 1 << t.a[0]
            v %= m
            if t.a[1] and v > hi:
                v -= m
            return v
        if frm is not None and frm.k == 'int':
            flo, fhi = int_range(('int',) + frm.a)
            if lo <= flo and fhi <= hi:
                return v
        return self.wrap(v, t)

    def wrap(self, v, t):
        """value reduced to the range of an integer type"""
        if isinstance(v, int):
            return self.conv_int(v, t)
        E = eng.E
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return self.conv_int(v.as_long(), t)
        lo, hi = int_range(('int',) + t.a)
        b = bounds(v)
        if b[0] is not None and b[1] is not None and lo <= b[0] and b[1] <= hi:
            return v
        if E.qd == 0 and E.ent(z3.And(v >= lo, v <= hi)):
            return v
        m = 1 << t.a[0]
        if not t.a[1]:
            if E.qd == 0 and E.ent(z3.And(v >= -m, v <= hi + m)):
                return z3.If(v < 0, v + m, z3.If(v > hi, v - m, v))
            return v % m
        if E.qd == 0:
            E.oblige('no signed integer overflow', z3.And(v >= lo, v <= hi))
        return v

    def truth(self, v):
        v = ld(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, F):
            return bnot(v.cmpeq(F.of(0)))
        if isinstance(v, RefV):
            return bnot(eqt(v.ref, 0))
        if isinstance(v, PtrV):
            return bnot(v.null)
        if isinstance(v, Obj):
            if v.k == 'nullptr':
                return False
            if v.k == 'opaque':
                return eng.E.fresh_bool('opq')
            if hasattr(v, 'ok'):
                return v.ok
            if v.k in ('stream', 'ifs', 'iss'):
                return v.state_ok()
        if isz(v):
            if z3.is_bool(v):
                return v
            return v != 0
        if isinstance(v, M):
            return self.truth(v.get(0, 0))
        raise Unsupported('truth of %r' % (v,))

    # ---------------------------------------------------------- operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        c = n['inner'][0]
        if op == '&':
            v = self.ev(c)
            if isinstance(v, Loc):
                return PtrV(v, False)
            raise Unsupported('address of %r' % (v,))
        if op == '*':
            return self.pointee(self.ev(c))
        if op in ('++', '--'):
            l = self.ev(c)
            old = ld(l)
            t = self.ty(c)
            if isinstance(old, F):
                new = old + (1 if op == '++' else -1)
            elif isinstance(old, (IterV, stl.MapIter)):
                new = stl.it_step(old, 1 if op == '++' else -1)
            else:
                new = self.wrap(add(old, 1) if op == '++' else sub(old, 1), t)
            st(l, new)
            return old if n.get('isPostfix') else l
        v = self.val(c)
        if op == '!':
            return bnot(self.truth(v))
        if op == '-':
            if isinstance(v, F):
                return -v
            return self.wrap(-v if isinstance(v, int) else -v, self.ty(n))
        if op == '+':
            return v
        if op == '~':
            t = self.ty(n)
            if isinstance(v, int):
                return self.conv_int(~v, t)
        if op in ('__extension__',):
            return v
        raise Unsupported('unary %s' % op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '&&':
            x = self.truth(self.ev(a))
            if not eng.E.decide(x):
                return False
            return self.truth(self.ev(b))
        if op == '||':
            x = self.truth(self.ev(a))
            if eng.E.decide(x):
                return True
            return self.truth(self.ev(b))
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op == '=':
            v = ld(self.ev(b))
            l = self.ev(a)
            st(l, v)
            return l
        x = self.val(a)
        y = self.val(b)
        return self.arith(op, x, y, self.ty(n))

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        v = self.val(n['inner'][1])
        l = self.ev(n['inner'][0])
        old = ld(l)
        t = self.ty(n['inner'][0])
        ct = n.get('computeResultType', {})
        cs = ct.get('desugaredQualType') or ct.get('qualType')
        cty = parse_ty(cs) if cs else t
        r = self.arith(op, self.conv(old, cty) if cty.k in ('int', 'float') else old, v, cty)
        st(l, self.conv(r, t, cty))
        return l

    def arith(self, op, x, y, t):
        if isinstance(x, Obj) and x.k == 'opaque' or isinstance(y, Obj) and y.k == 'opaque':
            if t.k == 'bool':
                return eng.E.fresh_bool('opq')
            return Obj('opaque')
        if op in ('==', '!='):
            r = self.equal(x, y)
            return r if op == '==' else bnot(r)
        if isinstance(x, F) or isinstance(y, F):
            x, y = F.of(x), F.of(y)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                return x / y
            if op in ('<', '>', '<=', '>='):
                return lit({'<': x.__lt__, '>': x.__gt__, '<=': x.__le__, '>=': x.__ge__}[op](y))
            raise Unsupported('float op %s' % op)
        if is_eig(x) or is_eig(y):
            return egn.binop(op, x, y)
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            raise Unsupported('pointer arithmetic')
        x, y = self.as_int(x), self.as_int(y)
        if op in ('<', '>', '<=', '>='):
            if isinstance(x, int) and isinstance(y, int):
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
            zx, zy = zi(x), zi(y)
            return lit(z3.simplify({'<': zx < zy, '>': zx > zy, '<=': zx <= zy, '>=': zx >= zy}[op]))
        if op == '+':
            return self.wrap(add(x, y), t)
        if op == '-':
            return self.wrap(sub(x, y), t)
        if op == '*':
            return self.wrap(x * y if isinstance(x, int) and isinstance(y, int) else zi(x) * zi(y), t)
        if op in ('/', '%'):
            if isinstance(y, int) and isinstance(x, int) and y != 0:
                q = abs(x) // abs(y)
                q = q if (x >= 0) == (y >= 0) else -q
                return q if op == '/' else x - q * y
            nz = lit(zi(y) != 0) if not isinstance(y, int) else y != 0
            if nz is not True:
                eng.E.oblige('division by a non-zero integer', nz)
            if isinstance(y, int) and y > 0 and (eng.E.qd or not t.a[1] or eng.E.ent(zi(x) >= 0)):
                return zi(x) / y if op == '/' else zi(x) % y
            if not t.a[1]:
                return zi(x) / zi(y) if op == '/' else zi(x) % zi(y)
            raise Unsupported('signed symbolic division')
        if isinstance(x, int) and isinstance(y, int):
            return self.conv_int({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op], t)
        if op == '<<' and isinstance(y, int):
            return self.wrap(zi(x) * (1 << y), t)
        if op == '>>' and isinstance(y, int):
            return zi(x) / (1 << y)
        if op in ('&', '|') and isz(x) and z3.is_bool(x):
            return band(x, y) if op == '&' else bor(x, y)
        if op == '&' and isinstance(y, int) and (y & (y + 1)) == 0:
            return zi(x) % (y + 1)
        raise Unsupported('integer op %s' % op)

    def as_int(self, x):
        if isinstance(x, bool):
            return int(x)
        if isz(x) and z3.is_bool(x):
            return z3.If(x, 1, 0)
        if isinstance(x, M):
            raise Unsupported('matrix as integer')
        if isinstance(x, int) or isz(x):
            return x
        raise Unsupported('integer expected, got %r' % (x,))

    def equal(self, x, y):
        if isinstance(x, RefV) or isinstance(y, RefV):
            a = 0 if isinstance(x, Obj) else x.ref
            b = 0 if isinstance(y, Obj) else y.ref
            return eqt(a, b)
        if isinstance(x, PtrV) or isinstance(y, PtrV):
            if isinstance(y, PtrV) and not isinstance(x, PtrV):
                x, y = y, x
            if isinstance(y, Obj):
                return x.null
            if x.loc is not None and y.loc is not None and x.loc.path == y.loc.path:
                return band(*[eqt(a, b) for a, b in zip(x.loc.idx, y.loc.idx)])
            raise Unsupported('pointer comparison')
        if isinstance(x, (IterV, stl.MapIter)):
            return stl.it_eq(x, y)
        if is_eig(x):
            return egn.binop('==', x, y)
        if isinstance(x, F) or isinstance(y, F):
            return F.of(x).cmpeq(F.of(y))
        if isinstance(x, Obj) and x.k == 'nullptr' and isinstance(y, Obj) and y.k == 'nullptr':
            return True
        if isz(x) and z3.is_bool(x) or isz(y) and z3.is_bool(y):
            if isinstance(x, bool):
                return y if x else bnot(y)
            if isinstance(y, bool):
                return x if y else bnot(x)
            if isz(x) and z3.is_bool(x) and isz(y) and z3.is_bool(y):
                return x == y
            # integer promoted bool against an integer literal
            if isinstance(y, int):
                return x if y == 1 else (bnot(x) if y == 0 else False)
        if isinstance(x, (int, bool)) or isz(x):
            return eqt(self.as_int(x), self.as_int(y))
        raise Unsupported('== on %r and %r' % (x, y))

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if eng.E.decide(self.truth(self.ev(c))):
            return self.ev(a)
        return self.ev(b)

    # ---------------------------------------------------------- construction
    def e_InitListExpr(self, n):
        t = self.ty(n)
        k = kind_of(t)
        inner = n.get('inner') or []
        if k is not None and k[0] in ('int', 'bool', 'float', 'ref') and len(inner) <= 1:
            return self.ev(inner[0]) if inner else self.zero(t)
        return Obj('ilist', items=inner, ty=t)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def e_CXXConstructExpr(self, n):
        return self.construct_value(n, n.get('inner') or [])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_value(self, n, args):
        t = self.ty(n)
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr' or t.k == 'class']
        k = kind_of(t)
        if k is None:
            # copy / move of an aggregate temporary
            if len(args) == 1:
                a = strip(args[0])
                if t.k == 'pair' or (t.k in ('vector', 'deque', 'umap', 'map', 'set') and self.ty(args[0]).k == t.k) or \
                        (t.k == 'class' and self.ty(args[0]) == t):
                    v = self.ev(args[0])
                    if isinstance(v, Obj) and v.k in ('kv', 'pairv'):
                        if v.k == 'kv':
                            s = v.second
                            if isinstance(s, Loc):
                                l = self.local('kvc', s.ty)
                                st(l, ld(s))
                                s = l
                            return Obj('pairv', first=v.first, second=s)
                        return v
                    if isinstance(v, Obj) and v.k == 'ilist':
                        pass
                    else:
                        l = self.local('cp', t)
                        copy_agg(l, v)
                        return l
            l = self.local('tmp', t)
            self.construct(l, t, args, n)
            return l
        return self.construct_scalar(t, k, args, n)

    def construct_scalar(self, t, k, args, n):
        E = eng.E
        if k[0] in ('int', 'bool', 'float'):
            return self.conv(self.val(args[0]), t) if args else stl.undef(k)
        if k[0] in ('mat', 'dyn', 'quat'):
            return self.construct_eigen(t, k, args, n)
        if k[0] == 'ref':
            if not args:
                return RefV(k[1], 0)
            v = self.val(args[0])
            if isinstance(v, Obj) and v.k == 'nullptr':
                return RefV(k[1], 0)
            if isinstance(v, RefV):
                return RefV(k[1], v.ref)
            if isinstance(v, PtrV) and v.loc is not None and len(v.loc.path) == 1 and len(v.loc.idx) == 1:
                return RefV(k[1], v.loc.idx[0])
            raise Unsupported('shared_ptr from %r' % (v,))
        if k[0] == 'str':
            if not args:
                return Obj('str', parts=('',), z=None)
            return self.val(args[0])
        # opaque python values
        if t.k == 'lambda':
            return self.val(args[0])
        if t.k in ('iter',):
            if not args:
                return Obj('uninit')
            v = self.val(args[0])
            if t.k == 'iter' and 'reverse_iterator' in tystr(n) and isinstance(v, IterV) and not v.rev:
                return IterV(v.cont, v.pos, True)
            return v
        name = str(t.a[0]) if t.a else ''
        s = tystr(n)
        if 'SelfAdjointEigenSolver' in s:
            return Obj('saes', m=self.val(args[0]))
        if 'HouseholderQR' in s or 'ColPiv' in s or 'JacobiSVD' in s or 'BDCSVD' in s or 'LDLT' in s or 'LLT' in s or 'PartialPivLU' in s:
            if not args:
                return Obj('uninit')
            v = self.val(args[0])
            if isinstance(v, M):
                if 'HouseholderQR' in s:
                    return egn.mk_qr(v)
                return Obj('svd' if 'SVD' in s else 'dec', kind=s.split('<')[0].split('::')[-1], m=v)
            return v
        if 'basic_ifstream' in s or 'basic_istringstream' in s or 'basic_stringstream' in s:
            return self.file_ctor(s, args)
        if 'chrono' in s:
            return Obj('opaque')
        if len(args) == 1:
            return self.val(args[0])
        if not args:
            return Obj('opaque')
        raise Unsupported('construction of %s' % s)

    def construct_eigen(self, t, k, args, n):
        E = eng.E
        if not args:
            return stl.undef(k, 'uninit')
        vals = [self.val(a) for a in args]
        if k[0] == 'quat':
            if len(vals) == 4:
                return Q(*[F.of(v.get(0, 0) if isinstance(v, M) else v) for v in vals])
            v = vals[0]
            if isinstance(v, Q):
                return v
            if isinstance(v, M):
                if v.rows == 3 and v.cols == 3:
                    return egn.qfrommat(v)
                if v.rows == 4 and v.cols == 1:
                    l = v.lst()
                    return Q(l[3], l[0], l[1], l[2])
            if isinstance(v, Obj) and v.k == 'angleaxis':
                raise Unsupported('angle axis')
            raise Unsupported('quaternion construction')
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, Q):
                v = egn.qrotm(v)
            if isinstance(v, M):
                if k[0] == 'mat':
                    if isinstance(v.rows, int) and isinstance(v.cols, int) and (v.rows, v.cols) == (k[2], k[1]) and (k[1] == 1 or k[2] == 1):
                        v = egn.mtr(v)
                return stl.coerce(v, k)
            if isinstance(v, Obj):
                return egn.to_mat(v)
            if k[0] == 'dyn':
                nm = E.fresh('dynv')
                uf = z3.Function(nm, INT, INT, REAL)
                if k[2] == 1:
                    return M(v, 1, f=lambda i, j: F(fl.p_atom_z(uf(zi(i), zi(j)))))
            if k[0] == 'mat' and k[1] * k[2] == 1:
                return M(1, 1, [F.of(v)])
            raise Unsupported('matrix construction')
        if k[0] == 'dyn' and k[1] < 0 and k[2] < 0 and len(vals) == 2:
            r, c = vals
            nm = E.fresh('dynm')
            uf = z3.Function(nm, INT, INT, REAL)
            return egn.from_fn(r, c, lambda i, j: F(fl.p_atom_z(uf(zi(i), zi(j)))))
        if k[0] == 'mat' and len(vals) == k[1] * k[2]:
            return M(k[1], k[2], [F.of(v.get(0, 0) if isinstance(v, M) else v) for v in vals])
        raise Unsupported('matrix construction from %d values' % len(vals))

    def ev_construct(self, ty, args):
        """emplace-style construction of a value of type ty from argument nodes"""
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        k = kind_of(ty)
        if len(args) == 1:
            v = ld(self.ev(args[0]))
            if k is not None:
                if k[0] == 'ref' and isinstance(v, PtrV) and v.loc is not None:
                    return RefV(k[1], v.loc.idx[0])
                if k[0] == 'ref' and isinstance(v, Obj) and v.k == 'nullptr':
                    return RefV(k[1], 0)
                if k[0] in ('int', 'float', 'bool'):
                    return self.conv(v, ty, self.ty(args[0]))
                return v
            if isinstance(v, Loc) and v.ty.k == ty.k and (ty.k != 'class' or v.ty == ty):
                return v
            if isinstance(v, Obj) and v.k in ('kv', 'pairv'):
                l = self.local('pr', ty)
                st(l.sub('first', ty.a[0]), ld(v.first))
                st(l.sub('second', ty.a[1]), ld(v.second))
                return l
        if k is not None and k[0] in ('mat', 'dyn', 'quat'):
            return self.construct_eigen(ty, k, args, None)
        if k is not None and not args:
            return self.zero(ty)
        l = self.local('emp', ty)
        self.construct(l, ty, args, None)
        return l

    def construct(self, loc, t, args, n=None):
        """construct an aggregate in place"""
        E = eng.E
        if t.k == 'class':
            name = t.a[0]
            if name in self.opaque_cls:
                return
            ctor = self.find_ctor(name, n, args)
            self.construct_class(loc, ctor, args, zero=bool(n and n.get('zeroing')))
            return
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if t.k in ('vector', 'deque'):
            default_init(loc)
            if not args:
                return
            vals = [ld(self.ev(a)) for a in args]
            v = vals[0]
            if isinstance(v, Loc) and v.ty.k == t.k:
                copy_agg(loc, v)
                return
            if isinstance(v, Obj) and v.k == 'ilist':
                for i, it in enumerate(v.items):
                    src = self.ev_construct(t.a[0], [it])
                    stl.set_rng(loc, 0, i + 1)
                    st(stl.elem(loc, i, False), src)
                return
            if isinstance(v, IterV) and len(vals) == 2 and not v.rev:
                sc, a, b = v.cont, v.pos, vals[1].pos
                for sp, xs, kk in layout(t.a[0]):
                    p = sc.path + ('[]',) + sp
                    E.reg(p, kk, stl.sorts_of(sc.idx) + [INT] + list(xs))
                    lf = E.leaf(p)
                    E.wr_pre(loc.path + ('[]',) + sp, loc.idx, kk, stl.sorts_of(loc.idx) + [INT] + list(xs),
                             lambda rest, lf=lf: lf.read(sc.idx + (add(a, rest[0]),) + tuple(rest[1:])))
                stl.set_rng(loc, 0, sub(b, a))
                return
            if isinstance(v, (int,)) or isz(v):
                val = None
                if len(vals) > 1:
                    v1 = stl.coerce(vals[1], kind_of(t.a[0]))
                    val = lambda sp: v1
                stl.fill_from(loc, 0, val)
                stl.set_rng(loc, 0, v)
                return
            raise Unsupported('vector construction')
        if t.k in ('umap', 'map', 'set', 'uset'):
            default_init(loc)
            if args:
                v = ld(self.ev(args[0]))
                if isinstance(v, Loc) and v.ty.k == t.k:
                    copy_agg(loc, v)
                    return
                raise Unsupported('map construction')
            return
        if t.k == 'pair':
            if len(args) == 2:
                st(loc.sub('first', t.a[0]), self.conv(ld(self.ev(args[0])), t.a[0]))
                st(loc.sub('second', t.a[1]), ld(self.ev(args[1])))
                return
            default_init(loc)
            return
        if t.k == 'array':
            if not args:
                return
        raise Unsupported('construction of %s' % t)

    def find_ctor(self, name, n, args):
        rec = self.prog.records.get(name)
        if rec is None:
            raise Unsupported('class %s' % name)
        ct = n.get('ctorType', {}).get('qualType') if n else None
        cands = []

        def walk(x):
            for c in x.get('inner', []) or []:
                if c.get('kind') == 'CXXConstructorDecl':
                    cands.append(c)
                elif c.get('kind') == 'FunctionTemplateDecl':
                    walk(c)
        walk(rec.node)
        if ct:
            for c in cands:
                if c.get('type', {}).get('qualType') == ct:
                    return c
        for c in cands:
            ps = [p for p in c.get('inner', []) or [] if p.get('kind') == 'ParmVarDecl']
            if len(ps) == len(args) and not c.get('isImplicit'):
                return c
        if not args:
            return None
        raise Unsupported('constructor of %s' % name)

    def construct_class(self, loc, ctor, args, zero=False):
        E = eng.E
        name = loc.ty.a[0]
        if name in self.opaque_cls:
            return
        rec = self.prog.records.get(name)
        if rec is None:
            raise Unsupported('class %s' % name)
        d = self.prog.definition(ctor) if ctor is not None else None
        if ctor is not None and d is None and args:
            ps = [p for p in ctor.get('inner', []) or [] if p.get('kind') == 'ParmVarDecl']
            if len(args) == 1 and len(ps) == 1:
                copy_agg(loc, ld(self.ev(args[0])))
                return
            d = ctor
        node = d or ctor
        env = {'this': loc, '#cls': name}
        if node is not None:
            self.bind_params(node, args, env)
        inits = {}
        if node is not None:
            for c in node.get('inner', []) or []:
                if c.get('kind') == 'CXXCtorInitializer' and c.get('anyInit'):
                    inits[c['anyInit'].get('name')] = c['inner'][0] if c.get('inner') else None
        E.frames.append(env)
        depth = len(E.frames)
        try:
            for f, ts, fnode in rec.fields:
                fl_ = loc.sub(f, field_ty(name, ts))
                i = inits.get(f)
                if i is not None and i.get('kind') != 'CXXDefaultInitExpr':
                    self.init_loc(fl_, i)
                    continue
                fi = [c for c in fnode.get('inner', []) or [] if c.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                if fi:
                    self.init_loc(fl_, fi[-1])
                elif fl_.ty.k == 'ptr':
                    E.wr(fl_.path, fl_.idx, ('py',), PtrV(None, True))
                elif zero and kind_of(fl_.ty) and kind_of(fl_.ty)[0] in ('int', 'bool', 'float'):
                    st(fl_, self.zero(fl_.ty))
                else:
                    default_init(fl_)
            body = self.body_of(node) if node is not None else None
            if body is not None:
                try:
                    self.ex(body)
                except ReturnEx:
                    pass
        finally:
            del E.frames[depth - 1:]

    def init_loc(self, loc, n):
        """initialise an object from an initialiser expression"""
        n0 = n
        n = strip(n)
        while n.get('kind') in ('CXXFunctionalCastExpr', 'ImplicitCastExpr') and n.get('castKind') in ('ConstructorConversion', 'NoOp'):
            n = strip(n['inner'][0])
        if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and kind_of(loc.ty) is None and self.ty(n) == loc.ty:
            args = n.get('inner') or []
            if len(args) == 1:
                a = strip(args[0])
                if self.ty(a) == loc.ty and a.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr'):
                    return self.init_loc(loc, a)
            if len(args) == 1 and self.ty(args[0]) == loc.ty:
                v = self.ev(args[0])
                if isinstance(v, Loc):
                    copy_agg(loc, v)
                    return
                st(loc, ld(v))
                return
            self.construct(loc, loc.ty, args, n)
            return
        if n.get('kind') == 'InitListExpr' and kind_of(loc.ty) is None:
            items = n.get('inner') or []
            if loc.ty.k == 'class' and items:
                rec = self.prog.records[loc.ty.a[0]]
                for (f, ts, fnode), it in zip(rec.fields, items):
                    self.init_loc(loc.sub(f, field_ty(loc.ty.a[0], ts)), it)
                return
            self.construct(loc, loc.ty, [] if not items else [n])
            return
        v = self.ev(n)
        if isinstance(v, Obj) and v.k in ('pairv', 'kv') and loc.ty.k == 'pair':
            st(loc.sub('first', loc.ty.a[0]), ld(v.first))
            st(loc.sub('second', loc.ty.a[1]), ld(v.second))
            return
        st(loc, self.conv(ld(v), loc.ty, self.ty(n)) if loc.ty.k in ('int', 'float', 'bool') else (RefV(kind_of(loc.ty)[1], 0) if isinstance(v, Obj) and v.k == 'nullptr' and loc.ty.k == 'shared' else (PtrV(None, True) if isinstance(v, Obj) and v.k == 'nullptr' and loc.ty.k == 'ptr' else v)))

    def e_CXXNewExpr(self, n):
        E = eng.E
        t = self.ty(n)            # pointer
        ct = t.a[0]
        if ct.k != 'class':
            raise Unsupported('new %s' % ct)
        r = E.new_ref(ct.a[0])
        loc = Loc((ct.a[0],), (r.ref,), ct)
        init = [c for c in n.get('inner') or [] if c.get('kind') in ('CXXConstructExpr', 'ExprWithCleanups', 'InitListExpr')]
        if init:
            c = strip(init[0])
            if c.get('kind') == 'CXXConstructExpr':
                self.construct(loc, ct, c.get('inner') or [], c)
                return r
        default_init(loc)
        return r

    # ---------------------------------------------------------- calls
    def callee(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'):
            c = c['inner'][0]
        return c

    def e_CXXMemberCallExpr(self, n):
        c = self.callee(n)
        args = n['inner'][1:]
        if c.get('kind') != 'MemberExpr':
            raise Unsupported('member call through %s' % c.get('kind'))
        name = c['name']
        o = self.ev(c['inner'][0])
        if c.get('isArrow'):
            o = self.pointee(o)
        return self.method_call(o, name, args, n, c)

    def method_call(self, o, name, args, n, c):
        E = eng.E
        if isinstance(o, PtrV) and not isinstance(o, Loc):
            o = self.pointee(o)
        if isinstance(o, Loc):
            t = o.ty
            k = kind_of(t)
            if t.k == 'class':
                return self.repo_call(c.get('referencedMemberDecl'), n, o, args, name)
            if t.k in ('vector', 'deque', 'array', 'umap', 'map', 'set', 'uset'):
                return stl.method(self, o, name, [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], n)
            if t.k == 'shared':
                return self.shared_method(o, ld(o), name, args)
            if k and k[0] in ('mat', 'dyn', 'quat'):
                return egn.method(self, o, name, [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], n)
            if k and k[0] == 'str':
                return self.str_method(o, name, args)
            v = ld(o)
            return self.obj_method(o, v, name, args, n)
        if isinstance(o, (M, Q, MRef)):
            return egn.method(self, o, name, [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], n)
        if isinstance(o, RefV):
            return self.shared_method(None, o, name, args)
        if isinstance(o, Obj):
            if o.k == 'str':
                return self.str_method(o, name, args)
            return self.obj_method(None, o, name, args, n)
        if isinstance(o, F):
            # scalar_sum / expressions of dynamic size folded to scalars
            return egn.method(self, M(1, 1, [o]), name, args, n)
        if isinstance(o, (IterV, stl.MapIter)) and name == 'base':
            return IterV(o.cont, o.pos, False)
        raise Unsupported('method %s on %r' % (name, o))

    def shared_method(self, l, v, name, args):
        if name in ('operator bool',):
            return bnot(eqt(v.ref, 0))
        if name == 'get':
            return v
        if name == 'reset':
            if not args or args[0].get('kind') == 'CXXDefaultArgExpr':
                st(l, RefV(v.cls, 0))
            else:
                st(l, self.val(args[0]))
            return None
        if name in ('operator->', 'operator*'):
            return PtrV(stl.deref(v), False)
        if name == 'use_count':
            return eng.E.fresh_int('uc')
        if name == 'swap':
            o = self.ev(args[0])
            w = ld(o)
            st(o, v)
            st(l, w)
            return None
        raise Unsupported('shared_ptr::%s' % name)

    def obj_method(self, l, v, name, args, n):
        if v.k in ('opaque', 'stream', 'default'):
            for a in args:
                self.ev(a)
            return v
        if v.k in ('dec', 'svd', 'saes', 'qr', 'Qmat', 'arrcmp'):
            return egn.dec_method(self, v, name, args, n)
        if v.k in ('ifs', 'iss'):
            return self.file_method(v, name, args, n)
        if v.k == 'uninit':
            raise Unsupported('method %s on an uninitialised object' % name)
        raise Unsupported('method %s on %s' % (name, v.k))

    def e_CXXOperatorCallExpr(self, n):
        E = eng.E
        c = self.callee(n)
        name = c.get('referencedDecl', {}).get('name', '')
        op = name[8:]
        args = n['inner'][1:]
        if op == '=':
            return self.op_assign(args, n)
        a = self.ev(args[0])
        if op == '<<' or op == '>>' or op == ',':
            return self.op_shift(op, a, args, n)
        if op == '()' and (isinstance(a, FnV) or isinstance(a, Loc) and isinstance(ld(a), FnV)):
            return self.call_lambda(ld(a), args[1:])
        if op in ('()',):
            if is_eig(a):
                return egn.method(self, a, 'operator()', args[1:], n)
            raise Unsupported('operator() on %r' % (a,))
        if op == '[]':
            if isinstance(a, Loc) and a.ty.k in ('vector', 'deque', 'array', 'umap', 'map'):
                stl.guard(a)
                i = self.val(args[1])
                if a.ty.k in ('umap', 'map') and a.ty.a[0].k == 'int':
                    i = self.conv_int(i, a.ty.a[0])
                return stl.index(a, i)
            if is_eig(a):
                return egn.method(self, a, 'operator[]', args[1:], n)
            raise Unsupported('[] on %r' % (a,))
        if op == '->':
            v = ld(a)
            if isinstance(v, (RefV, PtrV, IterV, stl.MapIter)):
                r = stl.it_deref(v)
                return PtrV(r, False)
            raise Unsupported('-> on %r' % (v,))
        if op == '*' and len(args) == 1:
            v = ld(a)
            return self.pointee(v)
        if op in ('++', '--'):
            v = ld(a)
            if not isinstance(v, (IterV, stl.MapIter)):
                raise Unsupported('%s on %r' % (op, v))
            st(a, stl.it_step(v, 1 if op == '++' else -1))
            return v if len(args) > 1 else a
        if op == '!':
            return bnot(self.truth(a))
        if len(args) == 1 and op == '-':
            v = ld(a)
            if isinstance(v, M):
                return egn.mscale(v, -1)
            raise Unsupported('unary - on %r' % (v,))
        if op in ('+=', '-=', '*=', '/='):
            b = self.val(args[1])
            old = ld(a)
            if isinstance(old, (IterV, stl.MapIter)):
                st(a, stl.it_step(old, b if op == '+=' else sub(0, b)))
                return a
            if isinstance(old, Obj) and old.k == 'str':
                st(a, self.concat(old, b))
                return a
            if isinstance(old, Obj) and old.k == 'opaque':
                return a
            st(a, egn.binop(op[0], old, b))
            return a
        b = self.val(args[1])
        a = ld(a)
        if isinstance(a, Obj) and a.k == 'opaque' or isinstance(b, Obj) and b.k == 'opaque':
            return Obj('opaque')
        if isinstance(a, (IterV, stl.MapIter)) and op in ('+', '-') and not isinstance(b, (IterV,)):
            return stl.it_step(a, b if op == '+' else sub(0, b))
        if isinstance(a, IterV) and isinstance(b, IterV) and op == '-':
            d = sub(a.pos, b.pos)
            return d if not a.rev else sub(0, d)
        if isinstance(a, IterV) and op in ('<', '>', '<=', '>='):
            x, y = (a.pos, b.pos) if not a.rev else (b.pos, a.pos)
            return self.arith(op, x, y, Ty('int', 64, True))
        if op in ('==', '!='):
            if isinstance(a, Obj) and a.k == 'str':
                r = self.str_eq(a, b)
            else:
                r = self.equal(a, b)
            return r if op == '==' else bnot(r)
        if isinstance(a, Obj) and a.k == 'str' or isinstance(b, Obj) and b.k == 'str':
            if op == '+':
                return self.concat(a, b)
        if is_eig(a) or is_eig(b) or isinstance(a, Obj) or isinstance(b, Obj):
            return egn.binop(op, a, b)
        if isinstance(a, F) or isinstance(b, F):
            return self.arith(op, a, b, Ty('float', 64))
        if isinstance(a, Loc) and a.ty.k == 'class':
            d = c.get('referencedDecl')
            return self.repo_call(d['id'] if d else None, n, a, args[1:], name)
        raise Unsupported('operator%s on %r' % (op, a))

    def op_assign(self, args, n):
        r = ld(self.ev(args[1]))
        l = self.ev(args[0])
        if isinstance(l, Loc):
            if l.ty.k == 'shared' and isinstance(r, Obj) and r.k == 'nullptr':
                r = RefV(kind_of(l.ty)[1], 0)
            if l.ty.k == 'quat' and isinstance(r, M):
                if r.rows == 3:
                    r = egn.qfrommat(r)
                else:
                    v = r.lst()
                    r = Q(v[3], v[0], v[1], v[2])
            if l.ty.k == 'mat' and isinstance(r, Q):
                r = egn.qrotm(r)
            if isinstance(r, Obj) and r.k in ('dec', 'svd'):
                r = egn.to_mat(r)
            if l.ty.k == 'mat' and isinstance(r, M) and kind_of(l.ty)[0] == 'mat':
                stl.need_dims(r, *l.ty.a[:2])
            k = kind_of(l.ty)
            if k and k[0] == 'py' and isinstance(r, (F, M, int, bool)):
                st(l, r)
                return l
            if isinstance(r, Obj) and r.k == 'ilist':
                raise Unsupported('assignment from an initialiser list')
        st(l, r)
        return l

    def op_shift(self, op, a, args, n):
        if op == ',' and isinstance(a, egn.Comma):
            return a.push(self.ev(args[1]))
        v = ld(a)
        if isinstance(v, Obj) and v.k in ('ifs', 'iss') and op == '>>':
            return self.file_extract(v, args[1], n)
        if op == '<<':
            if is_eig(a) and (isinstance(a, (Loc, MRef))):
                cm = egn.Comma(a)
                return cm.push(self.ev(args[1]))
            if isinstance(v, Obj):
                b = args[1]
                if strip(b).get('kind') not in ('StringLiteral',):
                    try:
                        t = strip(b)
                        if not (t.get('kind') == 'ImplicitCastExpr' and t.get('castKind') == 'FunctionToPointerDecay'):
                            self.ev(b)
                    except Unsupported:
                        eng.E.assumptions.add('values that are only printed to a stream are not evaluated')
                return v
        raise Unsupported('operator%s on %r' % (op, v))

    def concat(self, a, b):
        return Obj('str', parts=self.parts(a) + self.parts(b), z=None)

    def parts(self, a):
        if isinstance(a, Obj) and a.k == 'str':
            return a.parts if getattr(a, 'parts', None) is not None else (('sym', a.z),)
        if isinstance(a, int):
            return (chr(a),)
        raise Unsupported('string part %r' % (a,))

    def str_eq(self, a, b):
        raise Unsupported('string comparison')

    def str_method(self, o, name, args):
        v = ld(o)
        if name == 'empty' and hasattr(v, 'line'):
            return v.is_empty
        if name in ('c_str', 'data', 'str'):
            return v
        if name in ('size', 'length', 'empty'):
            if getattr(v, 'parts', None) is not None and all(isinstance(p, str) for p in v.parts):
                l = len(''.join(v.parts))
                return l if name != 'empty' else l == 0
        raise Unsupported('string method %s' % name)

    # ---------------------------------------------------------- free functions
    def e_CallExpr(self, n):
        E = eng.E
        c = self.callee(n)
        args = n['inner'][1:]
        if c.get('kind') == 'MemberExpr':       # static member through an object
            return self.repo_call(c.get('referencedMemberDecl'), n, None, args, c['name'])
        if c.get('kind') != 'DeclRefExpr':
            raise Unsupported('call through %s' % c.get('kind'))
        d = c['referencedDecl']
        name = d.get('name', '')
        if (c['_tu'], d['id']) in self.prog.decl:
            return self.repo_call(d['id'], n, None, args, name)
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        f = getattr(self, 'f_' + name.strip('_'), None)
        if f is None:
            if 'chrono' in tystr(n):
                return Obj('opaque')
            raise Unsupported('external function %s' % name)
        return f(n, args)

    def f_builtin_nanf(self, n, args):
        return F(fl.p_atom_z(z3.Real('nan')), True)
    f_builtin_nan = f_builtin_nanf
    f_nan = f_nanf = f_quiet_NaN = f_builtin_nanf

    def f_max(self, n, args):
        return self.minmax(args, n, True)

    def f_min(self, n, args):
        return self.minmax(args, n, False)

    def minmax(self, args, n, mx):
        a, b = self.val(args[0]), self.val(args[1])
        t = self.ty(n)
        if isinstance(a, F) or isinstance(b, F):
            a, b = F.of(a), F.of(b)
            c = (a < b) if mx else (b < a)
            return eng.E.pick(c, lambda: b, lambda: a)
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b) if mx else min(a, b)
        c = zi(a) < zi(b) if mx else zi(b) < zi(a)
        return ite(c, b, a)

    def fabs(self, v):
        v = F.of(v)
        c = v.const()
        if c is not None:
            return F(fl.p_const(abs(c)), v.nf)
        if fl.p_surely_nonneg(v.p):
            return v
        return eng.ite(lit(v.z() >= 0), F(v.p, v.nf), F((-v).p, v.nf)) if True else None

    def f_fabs(self, n, args):
        v = self.val(args[0])
        if isinstance(v, (int,)) or isz(v):
            if isinstance(v, int):
                return abs(v)
            return z3.If(v >= 0, v, -v)
        return self.fabs(v)
    f_abs = f_fabsf = f_fabs

    def f_sqrt(self, n, args):
        return F.of(self.val(args[0])).sqrt()
    f_sqrtf = f_sqrt

    def f_isnan(self, n, args):
        v = F.of(self.val(args[0]))
        return lit(v.nf) if not isinstance(v.nf, bool) else v.nf
    f_builtin_isnan = f_isnan

    def f_isfinite(self, n, args):
        return bnot(self.f_isnan(n, args))

    def f_isinf(self, n, args):
        self.val(args[0])
        return False

    def f_next(self, n, args):
        a = self.val(args[0])
        d = self.val(args[1]) if len(args) > 1 else 1
        return stl.it_step(a, d)

    def f_prev(self, n, args):
        a = self.val(args[0])
        d = self.val(args[1]) if len(args) > 1 else 1
        return stl.it_step(a, sub(0, d))

    def f_advance(self, n, args):
        l = self.ev(args[0])
        st(l, stl.it_step(ld(l), self.val(args[1])))

    def f_distance(self, n, args):
        a, b = self.val(args[0]), self.val(args[1])
        d = sub(b.pos, a.pos)
        return d if not a.rev else sub(0, d)

    def f_begin(self, n, args):
        return stl.method(self, self.ev(args[0]), 'begin', [], n)

    def f_end(self, n, args):
        return stl.method(self, self.ev(args[0]), 'end', [], n)

    def f_move(self, n, args):
        return self.ev(args[0])
    f_forward = f_as_const = f_move

    def f_addressof(self, n, args):
        return PtrV(self.ev(args[0]), False)

    def f_swap(self, n, args):
        a, b = self.ev(args[0]), self.ev(args[1])
        if kind_of(a.ty) is None:
            t = self.local('swap', a.ty)
            copy_agg(t, a)
            copy_agg(a, b)
            copy_agg(b, t)
            return None
        va, vb = ld(a), ld(b)
        st(a, vb)
        st(b, va)

    def f_make_pair(self, n, args):
        vs = []
        for a in args:
            v = ld(self.ev(a))
            vs.append(v)
        return Obj('pairv', first=vs[0], second=vs[1])

    def f_make_shared(self, n, args):
        t = self.ty(n)
        ct = t.a[0]
        E = eng.E
        r = E.new_ref(ct.a[0])
        loc = Loc((ct.a[0],), (r.ref,), ct)
        if len(args) == 1 and self.ty(args[0]) == ct:
            copy_agg(loc, ld(self.ev(args[0])))
            return r
        self.construct(loc, ct, args, None)
        return r

    def f_to_string(self, n, args):
        return Obj('str', parts=(('num', self.val(args[0])),), z=None)

    def f_rand(self, n, args):
        v = eng.E.fresh_val(('int', 32, True), 'rand')
        eng.E.assume(v >= 0)
        return v

    def f_getline(self, n, args):
        from . import files
        return files.getline(self, args)

    def f_now(self, n, args):
        return Obj('opaque')

    def f_Zero(self, n, args):
        return self.nullary(n, args, 0)

    def f_Ones(self, n, args):
        return self.nullary(n, args, 1)

    def f_Identity(self, n, args):
        t = self.ty(n)
        if t.k == 'quat':
            return Q(F.of(1), F.of(0), F.of(0), F.of(0))
        r, c = self.nullary_dims(n, args)
        return egn.ident(r, c)

    def f_Constant(self, n, args):
        r, c = self.nullary_dims(n, args[:-1])
        return egn.const(r, c, self.val(args[-1]))

    def f_UnitX(self, n, args):
        return M(3, 1, [F.of(1), F.of(0), F.of(0)])

    def f_UnitY(self, n, args):
        return M(3, 1, [F.of(0), F.of(1), F.of(0)])

    def f_UnitZ(self, n, args):
        return M(3, 1, [F.of(0), F.of(0), F.of(1)])

    def nullary(self, n, args, v):
        r, c = self.nullary_dims(n, args)
        return egn.const(r, c, v)

    def nullary_dims(self, n, args):
        s = _strip_cv(tystr(n))
        name, a = tmpl(s)
        t = None
        if a:
            for x in a:
                u = parse_ty(x)
                if u.k == 'mat':
                    t = u
        if t is None:
            u = parse_ty(s)
            if u.k == 'mat':
                t = u
        if t is None:
            raise Unsupported('constant of type %s' % s)
        r, c = t.a
        vs = [self.val(x) for x in args]
        if r >= 0 and c >= 0:
            return r, c
        if len(vs) == 2:
            return vs[0], vs[1]
        if len(vs) == 1:
            return (vs[0], c) if r < 0 else (r, vs[0])
        raise Unsupported('dimensions of a dynamic constant')

    def f_FromTwoVectors(self, n, args):
        return egn.from_two(self.val(args[0]), self.val(args[1]))

    def f_fill(self, n, args):
        a, b = self.val(args[0]), self.val(args[1])
        v = self.val(args[2])
        c = a.cont
        lo, hi = stl.rng(c)
        if eqt(a.pos, lo) is True and eqt(b.pos, hi) is True:
            vv = stl.coerce(v, kind_of(c.ty.a[0]))
            stl.fill_from(c, lo, lambda sp: vv)
            return None
        raise Unsupported('std::fill of a part')

    # ---------------------------------------------------------- lambdas
    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        fn = None
        for c in rec.get('inner', []) or []:
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                fn = c
        if fn is None:
            raise Unsupported('generic lambda')
        return FnV(fn, self.env())

    def call_lambda(self, f, args):
        E = eng.E
        env = dict(f.env)
        self.bind_params(f.node, args, env)
        return self.run_body(f.node, env)

    # ---------------------------------------------------------- repo calls
    def body_of(self, node):
        for c in node.get('inner', []) or []:
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    def bind_params(self, node, args, env):
        ps = [p for p in node.get('inner', []) or [] if p.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            t = self.ty(p)
            if a is None or (a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner')):
                dn = p
                ini = [c for c in dn.get('inner', []) or [] if 'kind' in c and not c['kind'].endswith(('Attr', 'Type'))]
                if not ini:
                    dn = self.decl_param(node, i)
                    ini = [c for c in (dn or {}).get('inner', []) or [] if 'kind' in c]
                if not ini:
                    raise Unsupported('default argument of %s' % node.get('name'))
                a = ini[-1]
            env[p['id']] = self.bind(p.get('name'), t, a)

    def decl_param(self, node, i):
        m = node.get('mangledName')
        for d in self.prog.decl.values():
            if d is not node and d.get('mangledName') == m and m:
                ps = [p for p in d.get('inner', []) or [] if p.get('kind') == 'ParmVarDecl']
                if i < len(ps) and ps[i].get('inner'):
                    return ps[i]
        return None

    def bind(self, name, t, a):
        """bind a parameter / variable of type t to initialiser node a"""
        E = eng.E
        if t.k == 'ref':
            v = self.ev(a)
            if is_lv(v):
                return v
            k = kind_of(t.a[0])
            if isinstance(v, Obj) and v.k == 'nullptr' and k and k[0] == 'ref':
                v = RefV(k[1], 0)
            if k is not None and k[0] != 'py':
                l = self.local(name or 'ref', t.a[0])
                st(l, self.conv(v, t.a[0]) if k[0] in ('int', 'float', 'bool') else v)
                return l
            return v
        l = self.local(name or 'par', t)
        k = kind_of(t)
        if k is None:
            self.init_loc(l, a)
            return l
        v = self.ev(a)
        if k[0] == 'py':
            if isinstance(v, Obj) and v.k == 'nullptr' and t.k == 'ptr':
                v = PtrV(None, True)
            if isinstance(v, MRef):
                return v
            if t.k in ('eigen', 'other') and isinstance(v, (M, Q, F)):
                E.assumptions.add('Eigen expressions bound to auto variables are evaluated at the binding')
                return v
            E.wr(l.path, (), k, ld(v))
            return l
        v = ld(v)
        if isinstance(v, Obj) and v.k == 'nullptr' and k[0] == 'ref':
            v = RefV(k[1], 0)
        if k[0] in ('int', 'float', 'bool'):
            v = self.conv(v, t, self.ty(a))
        E.wr(l.path, (), k, stl.coerce(v, k))
        return l

    def repo_call(self, declid, n, this, args, name):
        E = eng.E
        node = self.prog.find(n['_tu'], declid) if declid else None
        if node is None:
            raise Unsupported('unknown function %s' % name)
        q = node.get('_q')
        cls = node.get('_cls')
        if cls and cls.split('::')[-1] in self.opaque_cls:
            for a in args:
                self.ev(a)
            return Obj('opaque')
        d = self.prog.definition(node)
        if this is None and cls and node.get('kind') == 'CXXMethodDecl' and node.get('storageClass') != 'static' and 'this' in self.env():
            this = self.this()
        np_ = len([p for p in (d or node).get('inner', []) or [] if p.get('kind') == 'ParmVarDecl'])
        con = self.find_contract(q, np_, d or node)
        if d is None:
            if name.startswith('operator=') and this is not None:
                st(this, ld(self.ev(args[0])))
                return this
            raise Unsupported('no definition of %s' % q)
        env = {'this': this, '#cls': cls} if this is not None else {'#cls': cls}
        self.bind_params(d, args, env)
        if con is not None and con.modular and d is not self.root_fn:
            E.modular.add(con.key)
            return con.apply(self, d, env)
        if E.depth > 30:
            raise Unsupported('recursion in %s' % q)
        if d is not self.root_fn:
            E.inlined.add(q)
        return self.run_body(d, env)

    def find_contract(self, q, np_, d):
        return self.contracts.get((q, np_)) or self.contracts.get((q, None))

    def run_body(self, d, env):
        E = eng.E
        body = self.body_of(d)
        if body is None:
            raise Unsupported('no body of %s' % d.get('name'))
        E.frames.append(env)
        fd = len(E.frames)
        E.depth += 1
        try:
            try:
                self.ex(body)
                r = None
            except ReturnEx as e:
                r = e.v
        finally:
            del E.frames[fd - 1:]
            E.depth -= 1
        return r

    # ---------------------------------------------------------- statements
    def ex(self, n):
        k = n.get('kind')
        if k is None:
            return
        f = getattr(self, 's_' + k, None)
        if f is not None:
            return f(n)
        return self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []) or []:
            self.ex(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.get('inner', []) or []:
            self.decl(c)

    def decl(self, c):
        E = eng.E
        if c['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl', 'CXXRecordDecl'):
            return
        if c['kind'] != 'VarDecl':
            raise Unsupported('declaration %s' % c['kind'])
        t = self.ty(c)
        init = [x for x in c.get('inner', []) or [] if x.get('kind') and not x['kind'].endswith(('Attr', 'Comment', 'Decl'))]
        if c.get('storageClass') == 'static':
            if 'const' in tystr(c) and init:
                pass
            else:
                self.env()[c['id']] = Loc(('S!%s' % (c.get('name')),), (), t)
                return
        if not init:
            l = self.local(c.get('name'), t)
            default_init(l) if t.k != 'ptr' else E.wr(l.path, (), ('py',), PtrV(None, True))
            self.env()[c['id']] = l
            return
        self.env()[c['id']] = self.bind(c.get('name'), t, init[-1])

    def s_ReturnStmt(self, n):
        inner = n.get('inner') or []
        if not inner:
            raise ReturnEx(None)
        v = self.ev(inner[0])
        if not self.ret_ref():
            v = ld(v)
        raise ReturnEx(v)

    def ret_ref(self):
        return False

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'):
            self.ex(inner.pop(0))
        if n.get('hasVar'):
            self.ex(inner.pop(0))
        c = self.truth(self.ev(inner[0]))
        if eng.E.decide(c):
            self.ex(inner[1])
        elif n.get('hasElse'):
            self.ex(inner[2])

    def s_BreakStmt(self, n):
        raise BreakEx()

    def s_ContinueStmt(self, n):
        raise ContinueEx()

    def s_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if c]
        v = self.as_int(self.val(inner[-2] if len(inner) >= 2 else inner[0]))
        body = inner[-1]
        stmts = body.get('inner', []) or []
        # flatten nested case labels
        flat = []

        def add_stmt(s):
            if s.get('kind') == 'CaseStmt':
                cs = s['inner']
                flat.append(('case', cs[0]))
                add_stmt(cs[-1])
            elif s.get('kind') == 'DefaultStmt':
                flat.append(('default', None))
                add_stmt(s['inner'][0])
            else:
                flat.append(('stmt', s))
        for s in stmts:
            add_stmt(s)
        start = None
        dflt = None
        for i, (kk, x) in enumerate(flat):
            if kk == 'case' and start is None:
                cv = self.as_int(self.val(x))
                if eng.E.decide(eqt(v, cv)):
                    start = i
            if kk == 'default':
                dflt = i
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for kk, x in flat[start:]:
                if kk == 'stmt':
                    self.ex(x)
        except BreakEx:
            pass

    # ---------------------------------------------------------- loops
    def s_WhileStmt(self, n):
        inner = n['inner']
        from . import loops
        loops.run(self, n, lambda: self.truth(self.ev(inner[-2])), lambda: self.ex(inner[-1]), None)

    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        from . import loops
        E = eng.E
        try:
            self.ex(body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        loops.run(self, n, lambda: self.truth(self.ev(cond)), lambda: self.ex(body), None)

    def s_ForStmt(self, n):
        init, var, cond, inc, body = n['inner']
        from . import loops
        if init:
            self.ex(init)
        loops.run(self, n, (lambda: self.truth(self.ev(cond))) if cond else (lambda: True), lambda: self.ex(body), (lambda: self.ev(inc)) if inc else None)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        from . import loops
        init, rng, beg, end, cond, inc, var, body = inner
        if init:
            self.ex(init)
        self.ex(rng)
        self.ex(beg)
        self.ex(end)

        def b():
            self.ex(var)
            self.ex(body)
        loops.run(self, n, lambda: self.truth(self.ev(cond)), b, lambda: self.ev(inc))

    def s_CXXTryStmt(self, n):
        raise Unsupported('try')

    # ---------------------------------------------------------- files (ghost model)
    def file_ctor(self, s, args):
        from . import files
        return files.ctor(self, s, args)

    def file_method(self, v, name, args, n):
        from . import files
        return files.method(self, v, name, args, n)

    def file_extract(self, v, target, n):
        from . import files
        return files.extract(self, v, target, n)


def bounds(v, depth=0):
    """cheap interval of an integer term"""
    if isinstance(v, int):
        return v, v
    if z3.is_int_value(v):
        k = v.as_long()
        return k, k
    return None, None


def _uf1(nm):
    def f(self, n, args):
        return fl.fn(nm, *[self.val(a) for a in args])
    return f


for _nm in ('acos', 'asin', 'atan2', 'log', 'exp', 'sin', 'cos', 'tan', 'atan', 'pow'):
    setattr(Interp, 'f_' + _nm, _uf1(_nm))
    setattr(Interp, 'f_' + _nm + 'f', _uf1(_nm))
