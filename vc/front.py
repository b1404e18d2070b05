"""Front end: runs clang on /repo's current sources and indexes the JSON AST.

Nothing of the verified text is written by hand: every function body the VC generator
interprets is the AST clang produced from the file in /repo on this run.
"""
import hashlib, json, os, re, subprocess, sys, concurrent.futures as cf

REPO = os.environ.get('VP_REPO', '/repo')
SRC = REPO + '/eskf_vio_backend/src'
INC = REPO + '/eskf_vio_backend/include'
NS = 'ESKF_VIO_BACKEND'


class FrontError(Exception):
    pass


def src_files():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(d, f))
    return sorted(out)


def inc_flags():
    fl = ['-I/usr/include/eigen3']
    for d, _, _ in sorted(os.walk(INC)):
        fl.append('-I' + d)
    return fl


def tree_hash():
    h = hashlib.sha256()
    for root in (SRC, INC):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst.cpp'), 'rb').read())
    return h.hexdigest()[:24]


def _clang(srcs, wd, name):
    u = os.path.join(wd, name + '.cpp')
    with open(u, 'w') as f:
        for s in srcs:
            f.write('#include "%s"\n' % s)
    out = os.path.join(wd, name + '.json')
    cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-w'] + inc_flags() + \
        ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + NS, u]
    with open(out, 'wb') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.PIPE)
    return r.returncode, out, r.stderr.decode(errors='replace'), cmd


def _decode(path):
    s = open(path).read()
    d = json.JSONDecoder()
    i, out, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


class Program:
    """All declarations of namespace ESKF_VIO_BACKEND."""

    def __init__(self):
        self.decl = {}        # (tu, id) -> node
        self.parent = {}
        self.funcs = {}       # qualified name -> [definition nodes]
        self.by_mangled = {}  # mangled -> definition node
        self.records = {}     # class name -> Record
        self.notes = []

    def add_tu(self, tu, roots):
        self._late = []
        for r in roots:
            self._walk(tu, r, [])
        for n, q in self._late:
            pid = n.get('previousDecl') or n.get('parentDeclContextId')
            # out-of-line member definitions: qualify by the class
            pd = self.decl.get((tu, n.get('previousDecl')))
            if pd is not None:
                q = pd['_q']
                n['_q'] = q
                n['_cls'] = pd.get('_cls')
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', []) or []):
                lst = self.funcs.setdefault(q, [])
                if not any(x.get('mangledName') == n.get('mangledName') for x in lst):
                    lst.append(n)
                if n.get('mangledName'):
                    self.by_mangled.setdefault(n['mangledName'], n)

    def _walk(self, tu, n, ctx):
        k = n.get('kind')
        n['_tu'] = tu
        if 'id' in n and k and (k.endswith('Decl')):
            self.decl[(tu, n['id'])] = n
        name = n.get('name')
        nctx = ctx
        if k == 'NamespaceDecl':
            nctx = ctx if name == NS else ctx + [name or '(anon)']
        elif k == 'CXXRecordDecl' and name:
            nctx = ctx + [name]
            n['_q'] = '::'.join(nctx)
            if n.get('completeDefinition'):
                if n['_q'] not in self.records:
                    self.records[n['_q']] = Record(n['_q'], n)
        elif k == 'EnumDecl':
            n['_q'] = '::'.join(ctx + [name or '(anon)'])
        if k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            n['_q'] = '::'.join(ctx + [name or ''])
            n['_cls'] = '::'.join(ctx) if k != 'FunctionDecl' else None
            self._late.append((n, n['_q']))
        if k == 'EnumConstantDecl':
            n['_ctx'] = ctx
        for c in n.get('inner', []) or []:
            if c:
                self._walk(tu, c, nctx)

    def find(self, tu, id_):
        return self.decl.get((tu, id_))

    def definition(self, node):
        """definition node (with a body) of a function declaration node"""
        if any(c.get('kind') == 'CompoundStmt' for c in node.get('inner', []) or []):
            return node
        m = node.get('mangledName')
        if m and m in self.by_mangled:
            return self.by_mangled[m]
        # defaulted / deleted
        return None


class Record:
    def __init__(self, name, node):
        self.name = name
        self.node = node
        self.fields = []   # (fieldname, typestring, node)
        self.bases = [b.get('type', {}).get('desugaredQualType') or b.get('type', {}).get('qualType') for b in node.get('bases', [])]
        self.static = {}
        for c in node.get('inner', []) or []:
            if c.get('kind') == 'FieldDecl':
                self.fields.append((c.get('name'), tystr(c), c))
            if c.get('kind') == 'VarDecl':
                self.static[c.get('name')] = c


def tystr(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''


_prog = None


def load(workdir, use_cache=True):
    """Parse /repo's current sources. Returns a Program."""
    global _prog
    if _prog is not None:
        return _prog
    os.makedirs(workdir, exist_ok=True)
    h = tree_hash()
    p = Program()
    files = src_files()
    if not files:
        raise FrontError('no sources')
    cached = os.path.join(workdir, 'ast_%s.json' % h)
    if use_cache and os.path.exists(cached):
        p.add_tu('u', _decode(cached))
        _prog = p
        return p
    inst = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst.cpp')
    rc, out, err, cmd = _clang(files + [inst], workdir, 'unity_%d' % os.getpid())
    if rc != 0:
        rc, out, err, cmd = _clang(files, workdir, 'unity_%d' % os.getpid())
    p.cmd = ' '.join(cmd)
    if rc == 0:
        os.replace(out, cached)
        p.add_tu('u', _decode(cached))
    else:
        p.notes.append('unity parse failed, files parsed one by one')
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: _clang([a[1]], workdir, 'tu%d_%d' % (a[0], os.getpid())), enumerate(files)))
        bad = [f for f, r in zip(files, res) if r[0] != 0]
        if bad:
            raise FrontError('clang cannot parse %s: %s' % (bad, [r[2][:2000] for r in res if r[0]]))
        for i, r in enumerate(res):
            p.add_tu('t%d' % i, _decode(r[1]))
            os.remove(r[1])
    _prog = p
    return p


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 's')

    def __init__(self, k, *a):
        self.k = k
        self.a = a

    def __repr__(self):
        return self.k + (str(self.a) if self.a else '')

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))


INTS = {'unsigned int': (32, False), 'int': (32, True), 'unsigned long': (64, False), 'long': (64, True),
        'unsigned short': (16, False), 'short': (16, True), 'unsigned char': (8, False), 'char': (8, True),
        'signed char': (8, True), 'long long': (64, True), 'unsigned long long': (64, False), 'uint32_t': (32, False),
        'uint64_t': (64, False), 'int32_t': (32, True), 'int64_t': (64, True), 'uint8_t': (8, False), 'uint16_t': (16, False),
        'size_t': (64, False), 'std::size_t': (64, False), 'Eigen::Index': (64, True), 'std::ptrdiff_t': (64, True)}

_tycache = {}


def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def tmpl(s):
    """'A::B<x, y>::C' -> (name, args) for a type that ends in >, else (s, None)"""
    s = s.strip()
    if not s.endswith('>'):
        return s, None
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == '>':
            depth += 1
        elif s[i] == '<':
            depth -= 1
            if depth == 0:
                return s[:i], split_args(s[i + 1:-1])
    return s, None


ALIASES = {'Vector2': ('mat', 2, 1), 'Vector3': ('mat', 3, 1), 'Vector4': ('mat', 4, 1), 'Vector6': ('mat', 6, 1),
           'Matrix23': ('mat', 2, 3), 'Matrix26': ('mat', 2, 6), 'Matrix33': ('mat', 3, 3), 'Matrix44': ('mat', 4, 4),
           'Matrix66': ('mat', 6, 6), 'Matrix': ('mat', -1, -1), 'Vector': ('mat', -1, 1), 'Quaternion': ('quat',),
           'Scalar': ('float', 32), 'fp32': ('float', 32), 'fp64': ('float', 64)}


def parse_ty(s):
    s0 = s
    if s in _tycache:
        return _tycache[s]
    t = _parse_ty(s)
    _tycache[s0] = t
    return t


def _strip_cv(s):
    s = s.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'typename '):
            if s.startswith(p):
                s = s[len(p):].strip(); ch = True
        for p in (' const', ' volatile', '*const'):
            if s.endswith(p):
                s = s[:-len(p)].strip() + ('*' if p[0] == '*' else ''); ch = True
    return s


def _parse_ty(s):
    s = _strip_cv(s)
    if s.endswith('&&'):
        return Ty('ref', parse_ty(s[:-2]))
    if s.endswith('&'):
        return Ty('ref', parse_ty(s[:-1]))
    if s.endswith('*'):
        return Ty('ptr', parse_ty(s[:-1]))
    if s in INTS:
        return Ty('int', *INTS[s])
    if s in ('float', 'double', 'long double'):
        return Ty('float', {'float': 32, 'double': 64}.get(s, 80))
    if s in ('bool', '_Bool', 'std::_Bit_reference'):
        return Ty('bool')
    if s == 'void':
        return Ty('void')
    if s.startswith(NS + '::'):
        s = s[len(NS) + 2:]
    if s in ALIASES:
        return Ty(*ALIASES[s])
    if s.startswith('(lambda'):
        return Ty('lambda')
    name, args = tmpl(s)
    b = name.split('::')[-1]
    if args is not None:
        if name in ('std::vector',):
            return Ty('vector', parse_ty(args[0]))
        if name in ('std::deque', 'std::list'):
            return Ty('deque', parse_ty(args[0]))
        if name == 'std::array':
            return Ty('array', parse_ty(args[0]), int(args[1]))
        if name in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
            return Ty('shared', parse_ty(args[0]))
        if name == 'std::unordered_map':
            return Ty('umap', parse_ty(args[0]), parse_ty(args[1]))
        if name == 'std::map':
            return Ty('map', parse_ty(args[0]), parse_ty(args[1]))
        if name in ('std::set',):
            return Ty('set', parse_ty(args[0]))
        if name in ('std::unordered_set',):
            return Ty('uset', parse_ty(args[0]))
        if name == 'std::pair':
            return Ty('pair', parse_ty(args[0]), parse_ty(args[1]))
        if name == 'std::basic_string':
            return Ty('string')
        if name == 'Eigen::Matrix':
            try:
                return Ty('mat', int(args[1].strip('()')), int(args[2].strip('()')))
            except ValueError:
                return Ty('eigen', name, tuple(args))
        if name == 'Eigen::Quaternion':
            return Ty('quat')
        if name.startswith('Eigen::'):
            return Ty('eigen', name, tuple(args))
        if 'iterator' in b or b in ('__normal_iterator', '_Deque_iterator', 'reverse_iterator'):
            return Ty('iter')
        if name == 'std::initializer_list':
            return Ty('ilist', parse_ty(args[0]))
        if name == 'std::function':
            return Ty('lambda')
        return Ty('other', s)
    if s in ('std::string', 'std::__cxx11::string'):
        return Ty('string')
    if 'iterator' in b:
        return Ty('iter')
    return Ty('class', s)


def node_ty(n):
    return parse_ty(tystr(n))


if __name__ == '__main__':
    p = load('/verif/.cache')
    for q in sorted(p.funcs):
        print(q, [tystr(x) for x in p.funcs[q]])
    for r in p.records.values():
        print(r.name, [(f, parse_ty(t)) for f, t, _ in r.fields])
