"""Execution of the real code on concrete states, judged by the same contracts.

A C++ driver is generated from the clang AST of the current tree: it builds an object graph from a
token stream, calls the function under contract, and dumps the graph afterwards.  It is compiled with
/repo's sources (address sanitizer, libstdc++ and Eigen assertions on) and is used to replay failed
obligations, to look for failing inputs, and as the bounded stand-in where the verifier gives up.
"""
import concurrent.futures as cf
import hashlib, json, math, os, random, struct, subprocess, sys, time
from . import front, spec, eng
from .front import Ty, parse_ty, node_ty, tystr
from .eng import kind_of, field_ty, is_enum, resolve, M, Q

HERE = os.path.dirname(os.path.abspath(__file__))
NS = 'ESKF_VIO_BACKEND'
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
CXX = ['clang++', '-std=c++17', '-O0', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_INITIALIZE_MATRICES_BY_NAN'] + SAN


class CxxError(Exception):
    pass


# ---------------------------------------------------------------- C++ types
def cpp(t):
    k = t.k
    if k == 'int':
        return {(8, False): 'unsigned char', (8, True): 'char', (16, False): 'unsigned short', (16, True): 'short', (32, False): 'unsigned int',
                (32, True): 'int', (64, False): 'unsigned long', (64, True): 'long'}[t.a]
    if k == 'bool':
        return 'bool'
    if k == 'float':
        return 'float' if t.a[0] == 32 else 'double'
    if k == 'mat':
        return 'Eigen::Matrix<float, %d, %d>' % t.a[:2]
    if k == 'quat':
        return 'Eigen::Quaternion<float>'
    if k == 'string':
        return 'std::string'
    if k == 'class':
        return NS + '::' + t.a[0]
    if k == 'shared':
        return 'std::shared_ptr<%s>' % cpp(t.a[0])
    if k == 'ptr':
        return cpp(t.a[0]) + '*'
    if k in ('vector', 'deque'):
        return 'std::%s<%s>' % (k, cpp(t.a[0]))
    if k == 'umap':
        return 'std::unordered_map<%s, %s>' % (cpp(t.a[0]), cpp(t.a[1]))
    if k == 'map':
        return 'std::map<%s, %s>' % (cpp(t.a[0]), cpp(t.a[1]))
    if k == 'set':
        return 'std::set<%s>' % cpp(t.a[0])
    if k == 'pair':
        return 'std::pair<%s, %s>' % (cpp(t.a[0]), cpp(t.a[1]))
    raise CxxError('type %s' % t)


def supported(prog, t):
    k = t.k
    if k in ('int', 'bool', 'float', 'mat', 'quat', 'string'):
        return True
    if k == 'class':
        return t.a[0] in prog.records or is_enum(t.a[0])
    if k in ('shared', 'ptr', 'vector', 'deque', 'set'):
        return supported(prog, t.a[0])
    if k in ('umap', 'map', 'pair'):
        return supported(prog, t.a[0]) and supported(prog, t.a[1])
    return False


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.roots = {}
        self.cls = sorted(n for n in prog.records if n not in ('TickTockTimer', 'Utility'))
        self.flds = {}
        for n in self.cls:
            self.flds[n] = [(f, field_ty(n, ts)) for f, ts, _ in prog.records[n].fields]
            self.flds[n] = [(f, t) for f, t in self.flds[n] if supported(prog, t)]
        self.fmap = {n: dict(v) for n, v in self.flds.items()}

    def field(self, cls, name):
        return self.fmap[cls][name]

    def is_enum(self, n):
        return is_enum(n)


# ---------------------------------------------------------------- driver
PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <fstream>
#include <unistd.h>
#include <sys/resource.h>
%(headers)s
namespace ESKF_VIO_BACKEND {
struct In { std::vector<std::string> t; size_t p = 0; const std::string &next() { static std::string e; if (p >= t.size()) { fprintf(stderr, "driver: out of tokens\n"); _exit(77); } return t[p++]; }
  long long i() { return atoll(next().c_str()); } double d() { return strtod(next().c_str(), nullptr); } };
struct Out { std::string s; void raw(const std::string &x) { s += x; s += ' '; } void i(long long v) { raw(std::to_string(v)); }
  void d(double v) { char b[64]; snprintf(b, sizeof b, "%%.17g", v); raw(b); } };
struct Any { std::shared_ptr<void> p; int cls; };
static std::map<long long, Any> g_obj;            // id -> object
static std::map<void *, long long> g_id;
static std::vector<long long> g_new;
static long long g_next;
static std::map<std::string, void *> g_ptr;       // named addresses
static std::map<void *, std::vector<std::string>> g_name;
template<class T> struct CI { static constexpr int v = -1; };
%(classids)s
static std::string unq(const std::string &s) { std::string r; for (size_t i = 1; i < s.size(); ++i) { if (s[i] == '%%') { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += s[i]; } return r; }
static std::string qt(const std::string &s) { std::string r = "$"; char b[8]; for (unsigned char c : s) { if (isalnum(c) || c == '_' || c == '.' || c == '/') r += c; else { snprintf(b, 8, "%%%%%%02x", c); r += b; } } return r; }
template<class T> T mk();
%(decls)s
inline void rd(In &s, bool &x) { x = s.i() != 0; }
#define NUM(T) inline void rd(In &s, T &x) { x = (T)s.i(); } inline void wr(Out &o, const T &x) { o.i((long long)x); }
NUM(unsigned char) NUM(char) NUM(unsigned short) NUM(short) NUM(unsigned int) NUM(int) NUM(unsigned long) NUM(long)
inline void wr(Out &o, const bool &x) { o.i(x ? 1 : 0); }
inline void rd(In &s, float &x) { x = (float)s.d(); }
inline void rd(In &s, double &x) { x = s.d(); }
inline void wr(Out &o, const float &x) { o.d(x); }
inline void wr(Out &o, const double &x) { o.d(x); }
inline void rd(In &s, std::string &x) { x = unq(s.next()); }
inline void wr(Out &o, const std::string &x) { o.raw(qt(x)); }
template<int R, int C> void rd(In &s, Eigen::Matrix<float, R, C> &m) { long r = s.i(), c = s.i(); m.resize(r, c); for (long i = 0; i < r; ++i) for (long j = 0; j < c; ++j) { float f; rd(s, f); m(i, j) = f; } }
template<int R, int C> void wr(Out &o, const Eigen::Matrix<float, R, C> &m) { o.i(m.rows()); o.i(m.cols()); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) wr(o, m(i, j)); }
inline void rd(In &s, Eigen::Quaternion<float> &q) { float w, x, y, z; rd(s, w); rd(s, x); rd(s, y); rd(s, z); q = Eigen::Quaternion<float>(w, x, y, z); }
inline void wr(Out &o, const Eigen::Quaternion<float> &q) { wr(o, q.w()); wr(o, q.x()); wr(o, q.y()); wr(o, q.z()); }
template<class T> void rd(In &s, std::shared_ptr<T> &p);
template<class T> void wr(Out &o, const std::shared_ptr<T> &p);
template<class T> void rd(In &s, std::vector<T> &v);
template<class T> void wr(Out &o, const std::vector<T> &v);
template<class T> void rd(In &s, std::deque<T> &v);
template<class T> void wr(Out &o, const std::deque<T> &v);
template<class K, class V> void rd(In &s, std::unordered_map<K, V> &v);
template<class K, class V> void wr(Out &o, const std::unordered_map<K, V> &v);
template<class K, class V> void rd(In &s, std::map<K, V> &v);
template<class K, class V> void wr(Out &o, const std::map<K, V> &v);
template<class K> void rd(In &s, std::set<K> &v);
template<class K> void wr(Out &o, const std::set<K> &v);
template<class A, class B> void rd(In &s, std::pair<A, B> &v);
template<class A, class B> void wr(Out &o, const std::pair<A, B> &v);
inline void rd(In &s, std::vector<bool> &v) { long n = s.i(); v.clear(); for (long i = 0; i < n; ++i) v.push_back(s.i() != 0); }
inline void wr(Out &o, const std::vector<bool> &v) { o.i(v.size()); for (size_t i = 0; i < v.size(); ++i) o.i(v[i] ? 1 : 0); }
template<class T> void rdp(In &s, T *&p) { std::string n = s.next(); if (n == "null") { p = nullptr; return; } auto it = g_ptr.find(n); if (it == g_ptr.end()) { fprintf(stderr, "driver: no address %%s\n", n.c_str()); _exit(77); } p = (T *)it->second; }
template<class T> void wrp(Out &o, T *p) { if (!p) { o.raw("null"); return; } auto it = g_name.find((void *)p); o.raw(it == g_name.end() ? "?" : it->second[0]); }
template<class T> void rd(In &s, std::shared_ptr<T> &p) { long long id = s.i(); if (!id) { p.reset(); return; } p = std::static_pointer_cast<T>(g_obj.at(id).p); }
template<class T> void wr(Out &o, const std::shared_ptr<T> &p) {
  if (!p) { o.i(0); return; }
  auto it = g_id.find((void *)p.get());
  if (it != g_id.end()) { o.i(it->second); return; }
  long long id = g_next++; g_id[(void *)p.get()] = id; g_obj[id] = Any{std::const_pointer_cast<typename std::remove_const<T>::type>(p), CI<T>::v}; g_new.push_back(id); o.i(id); }
template<class T> void rd(In &s, std::vector<T> &v) { long n = s.i(); v.clear(); for (long i = 0; i < n; ++i) { T x = mk<T>(); rd(s, x); v.push_back(x); } }
template<class T> void wr(Out &o, const std::vector<T> &v) { o.i(v.size()); for (auto &x : v) wr(o, x); }
template<class T> void rd(In &s, std::deque<T> &v) { long n = s.i(); v.clear(); for (long i = 0; i < n; ++i) { T x = mk<T>(); rd(s, x); v.push_back(x); } }
template<class T> void wr(Out &o, const std::deque<T> &v) { o.i(v.size()); for (auto &x : v) wr(o, x); }
template<class K, class V> void rd(In &s, std::unordered_map<K, V> &v) { long n = s.i(); v.clear(); for (long i = 0; i < n; ++i) { K k; rd(s, k); V x = mk<V>(); rd(s, x); v.insert(std::make_pair(k, x)); } }
template<class K, class V> void wr(Out &o, const std::unordered_map<K, V> &v) { o.i(v.size()); for (auto &x : v) { wr(o, x.first); wr(o, x.second); } }
template<class K, class V> void rd(In &s, std::map<K, V> &v) { long n = s.i(); v.clear(); for (long i = 0; i < n; ++i) { K k; rd(s, k); V x = mk<V>(); rd(s, x); v.insert(std::make_pair(k, x)); } }
template<class K, class V> void wr(Out &o, const std::map<K, V> &v) { o.i(v.size()); for (auto &x : v) { wr(o, x.first); wr(o, x.second); } }
template<class K> void rd(In &s, std::set<K> &v) { long n = s.i(); v.clear(); for (long i = 0; i < n; ++i) { K k; rd(s, k); v.insert(k); } }
template<class K> void wr(Out &o, const std::set<K> &v) { o.i(v.size()); for (auto &x : v) wr(o, x); }
template<class A, class B> void rd(In &s, std::pair<A, B> &v) { rd(s, v.first); rd(s, v.second); }
template<class A, class B> void wr(Out &o, const std::pair<A, B> &v) { wr(o, v.first); wr(o, v.second); }
template<class T, bool D> struct MK { static T f() { return T(); } };
%(mk)s
template<class T> T mk() { return MK<T, std::is_default_constructible<T>::value>::f(); }
static void name(const std::string &n, void *p) { g_ptr[n] = p; g_name[p].push_back(n); }
'''

MAIN = r'''
static bool make(int cls, std::shared_ptr<void> &p) { switch (cls) { %(makes)s } return false; }
static void rdo(In &s, int cls, void *p) { switch (cls) { %(rds)s } }
static void wro(Out &o, int cls, void *p) { switch (cls) { %(wrs)s } }
static void names(const std::string &n, int cls, void *p) { name(n, p); switch (cls) { %(names)s } }
%(calls)s
static void run(int fn, In &s, Out &o, void *self, bool &found) { switch (fn) { %(disp)s default: found = false; } }
}
using namespace ESKF_VIO_BACKEND;
int main(int argc, char **argv) {
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  std::ifstream f(argv[1]); FILE *out = fopen(argv[2], "a"); long from = atol(argv[3]); unsigned tmo = atoi(argv[4]);
  if (!freopen("/dev/null", "w", stdout)) return 78;
  std::string line; long k = -1;
  while (std::getline(f, line)) {
    ++k; if (k < from) continue;
    In s; { size_t i = 0; while (i < line.size()) { while (i < line.size() && line[i] == ' ') ++i; size_t j = i; while (j < line.size() && line[j] != ' ') ++j; if (j > i) s.t.push_back(line.substr(i, j - i)); i = j; } }
    fprintf(out, "@ %%ld\n", k); fflush(out);
    alarm(tmo);
    g_obj.clear(); g_id.clear(); g_new.clear(); g_ptr.clear(); g_name.clear(); g_next = 1;
    int fn = s.i(); unsigned seed = s.i(); srand(seed);
    long n = s.i(); std::vector<long long> ids;
    for (long i = 0; i < n; ++i) { int c = s.i(); long long id = s.i(); std::shared_ptr<void> p; make(c, p); g_obj[id] = Any{p, c}; g_id[p.get()] = id; ids.push_back(id); if (id >= g_next) g_next = id + 1; }
    g_next += 1000;
    long nr = s.i(); std::vector<std::pair<std::string, Any>> roots;
    for (long i = 0; i < nr; ++i) { std::string nm = s.next(); int c = s.i(); std::shared_ptr<void> p; make(c, p); roots.push_back({nm, Any{p, c}}); names(nm, c, p.get()); }
    for (long long id : ids) rdo(s, g_obj[id].cls, g_obj[id].p.get());
    void *self = nullptr;
    for (auto &r : roots) { rdo(s, r.second.cls, r.second.p.get()); if (r.first == "this") self = r.second.p.get(); }
    Out o; bool found = true;
    run(fn, s, o, self, found);
    Out o2; for (auto &r : roots) wro(o2, r.second.cls, r.second.p.get());
    std::string body; long cnt = 0; 
    for (long long id : ids) { Out x; x.i(g_obj[id].cls); x.i(id); wro(x, g_obj[id].cls, g_obj[id].p.get()); body += x.s; ++cnt; }
    for (size_t i = 0; i < g_new.size(); ++i) { long long id = g_new[i]; Out x; x.i(g_obj[id].cls); x.i(id); wro(x, g_obj[id].cls, g_obj[id].p.get()); body += x.s; ++cnt; }
    alarm(0);
    fprintf(out, "= %%d %%s %%s %%ld %%s\n", found ? 1 : 0, o.s.c_str(), o2.s.c_str(), cnt, body.c_str()); fflush(out);
  }
  fprintf(out, "! done\n"); fclose(out); _exit(0);
}
'''


def ctor_args(prog, n):
    """arguments for a class without default constructor"""
    for d in prog.funcs.get(n + '::' + n.split('::')[-1], []):
        ps = [p for p in d.get('inner', []) or [] if p.get('kind') == 'ParmVarDecl']
        if ps and not d.get('isImplicit'):
            try:
                out = []
                for p in ps:
                    t = node_ty(p)
                    t = t.a[0] if t.k == 'ref' else t
                    t = resolve(t, n)
                    if t.k == 'vector' and t.a[0].k == 'shared':
                        out.append('%s(1, std::make_shared<%s>())' % (cpp(t), cpp(t.a[0].a[0])))
                    else:
                        out.append('%s{}' % cpp(t).replace('unsigned int', 'uint32_t'))
                return out
            except CxxError:
                continue
    return None


class Fn:
    """callable form of a function under contract"""

    def __init__(self, prog, c):
        from .contract import params_of, ret_type, is_static
        d = c.find(prog)
        self.d = d
        self.c = c
        self.cls = d.get('_cls')
        self.static = self.cls is None or d.get('storageClass') == 'static' or is_static(prog, d)
        self.ptys = []
        for p in params_of(d):
            t = resolve(node_ty(p), self.cls)
            u = t.a[0] if t.k == 'ref' else t
            if u.k in ('eigen', 'other') and ('MatrixBase' in tystr(p) or 'QuaternionBase' in tystr(p)):
                from .front import tmpl, _strip_cv
                nm_, a = tmpl(_strip_cv(tystr(p)).rstrip('&').strip().replace('const ', ''))
                u = parse_ty(a[0] if a[0].startswith('Eigen::') else 'Eigen::' + a[0])
                self.targ = cpp(u)
            if not supported(prog, u):
                raise CxxError('parameter %s' % tystr(p))
            self.ptys.append(u)
        self.nargs = len(self.ptys)
        self.names = list(c.params) + list(c.globals)
        for g in c.globals.values():
            self.ptys.append(c.global_loc(prog, g).ty)
        self.ret = ret_type(d)
        if self.ret.k in ('other', 'eigen') and getattr(self, 'targ', None):
            s = tystr(d)
            if s.startswith('Eigen::Quaternion<'):
                self.ret = Ty('quat')
            elif s.startswith('Eigen::Matrix<typename'):
                import re
                m = re.search(r'::Scalar, (\d+), (\d+)>', s)
                self.ret = Ty('mat', int(m.group(1)), int(m.group(2))) if m else self.ret
        if self.ret.k != 'void' and not supported(prog, self.ret):
            raise CxxError('return type %s' % self.ret)


class Driver:
    def __init__(self, prog, workdir, contracts):
        """contracts: every contract that may be executed (fixes the dispatch numbers)"""
        self.prog = prog
        self.wd = workdir
        self.T = Types(prog)
        self.fns = {}
        self.skipped = {}
        for i, c in enumerate(contracts):
            if c.concrete is False:
                continue
            try:
                self.fns[c.name] = (i, Fn(prog, c))
            except Exception as e:
                self.skipped[c.name] = str(e)
        self.exe = None

    # ------------------------------------------------------ code generation
    def source(self):
        T = self.T
        hs = []
        inc = front.INC
        for d, _, fs in sorted(os.walk(inc)):
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h')):
                    hs.append('#include "%s"' % os.path.join(d, f))
        ci, dec, mk, makes, rds, wrs, nms, body = [], [], [], [], [], [], [], []
        for i, n in enumerate(T.cls):
            q = NS + '::' + n
            ci.append('template<> struct CI<%s> { static constexpr int v = %d; };' % (q, i))
            dec.append('void rd(In &s, %s &x); void wr(Out &o, const %s &x);' % (q, q))
            args = ctor_args(self.prog, n)
            if args is not None:
                mk.append('template<> struct MK<%s, false> { static %s f() { return %s(%s); } };' % (q, q, q, ', '.join(args)))
                new = 'if constexpr (std::is_default_constructible<%s>::value) p = std::make_shared<%s>(); else p = std::make_shared<%s>(%s);' % (q, q, q, ', '.join(args))
                makes.append('case %d: { p = mkp<%s>(); return true; }' % (i, q))
            else:
                makes.append('case %d: { p = mkp<%s>(); return true; }' % (i, q))
            rds.append('case %d: rd(s, *(%s *)p); break;' % (i, q))
            wrs.append('case %d: wr(o, *(%s *)p); break;' % (i, q))
            sub = ''.join('name(n + ".%s", (void *)&x->%s);' % (f, f) for f, t in T.flds[n] if t.k == 'class' and t.a[0] in self.prog.records)
            nms.append('case %d: { auto x = (%s *)p; %s break; }' % (i, q, sub))
            r = ''.join(('rdp(s, x.%s);' if t.k == 'ptr' else 'rd(s, const_cast<std::remove_const_t<decltype(x.%s)> &>(x.%s));' if True else '') % ((f,) if t.k == 'ptr' else (f, f)) for f, t in T.flds[n])
            w = ''.join(('wrp(o, x.%s);' if t.k == 'ptr' else 'wr(o, x.%s);') % f for f, t in T.flds[n])
            body.append('inline void rd(In &s, %s &x) { %s }\ninline void wr(Out &o, const %s &x) { %s }' % (q, r, q, w))
        enums = set()

        def ens(t):
            if t.k == 'class' and is_enum(t.a[0]):
                enums.add(t.a[0])
            for a in t.a:
                if isinstance(a, Ty):
                    ens(a)
        for n in T.cls:
            for f, t in T.flds[n]:
                ens(t)
        for _, fn in self.fns.values():
            for t in fn.ptys + [fn.ret]:
                ens(t)
        for e in sorted(enums):
            q = NS + '::' + e
            dec.append('inline void rd(In &s, %s &x) { x = (%s)s.i(); } inline void wr(Out &o, const %s &x) { o.i((long long)x); }' % (q, q, q))
        calls, disp = [], []
        for name, (i, fn) in sorted(self.fns.items(), key=lambda kv: kv[1][0]):
            ls = []
            for k, t in enumerate(fn.ptys):
                if k >= fn.nargs:
                    ls.append('auto &a%d = const_cast<%s &>(%s::%s); rd(s, a%d);' % (k, cpp(t), NS, fn.c.globals[fn.names[k]], k))
                elif t.k == 'ptr':
                    ls.append('%s a%d = nullptr; rdp(s, a%d);' % (cpp(t), k, k))
                elif t.k == 'class' and t.a[0] in self.prog.records:
                    ls.append('auto a%d_ = mkp<%s>(); auto &a%d = *a%d_; rd(s, a%d);' % (k, cpp(t), k, k, k))
                else:
                    ls.append('%s a%d{}; rd(s, a%d);' % (cpp(t), k, k))
            av = ', '.join('a%d' % k for k in range(fn.nargs))
            short = fn.c.fn.split('::')[-1]
            if fn.static:
                q = fn.c.fn + ('<%s>' % fn.targ if getattr(fn, 'targ', None) else '')
                call = '%s::%s(%s)' % (NS, q, av)
            else:
                call = '((%s::%s *)self)->%s(%s)' % (NS, fn.cls, short, av)
            ov = fn.c.match
            if fn.ret.k == 'void':
                ls.append(call + ';')
            else:
                ls.append('%s r = %s; %s' % (cpp(fn.ret), call, 'wrp(o, r);' if fn.ret.k == 'ptr' else 'wr(o, r);'))
            for k, t in enumerate(fn.ptys):
                ls.append('wrp(o, a%d);' % k if t.k == 'ptr' else 'wr(o, a%d);' % k)
            calls.append('static void f%d(In &s, Out &o, void *self) { %s }' % (i, ' '.join(ls)))
            disp.append('case %d: f%d(s, o, self); break;' % (i, i))
        mkp = 'template<class T> std::shared_ptr<T> mkp() { return std::shared_ptr<T>(MKP<T, std::is_default_constructible<T>::value>::f()); }'
        mkps = ['template<class T, bool D> struct MKP { static T *f() { return new T(); } };']
        for n in T.cls:
            args = ctor_args(self.prog, n)
            if args is not None:
                q = NS + '::' + n
                mkps.append('template<> struct MKP<%s, false> { static %s *f() { return new %s(%s); } };' % (q, q, q, ', '.join(args)))
        src = PRE % dict(headers='\n'.join(hs), classids='\n'.join(ci), decls='\n'.join(dec), mk='\n'.join(mk + mkps + [mkp]))
        src += '\n'.join(body)
        src += MAIN % dict(makes=' '.join(makes), rds=' '.join(rds), wrs=' '.join(wrs), names=' '.join(nms), calls='\n'.join(calls), disp=' '.join(disp))
        return src

    # ------------------------------------------------------ build
    def build(self, timeout=600):
        t = time.time()
        src = self.source()
        th = front.tree_hash()
        key = hashlib.sha256((th + src + ' '.join(CXX)).encode()).hexdigest()[:20]
        bd = os.path.join(self.wd, 'drv_' + key)
        exe = os.path.join(bd, 'driver')
        self.exe = exe
        self.build_s = 0
        if os.path.exists(exe):
            return exe
        os.makedirs(bd, exist_ok=True)
        od = os.path.join(self.wd, 'obj_' + hashlib.sha256((th + ' '.join(CXX)).encode()).hexdigest()[:20])
        os.makedirs(od, exist_ok=True)
        dsrc = os.path.join(bd, 'driver.cpp')
        with open(dsrc, 'w') as f:
            f.write(src)
        inc = front.inc_flags()
        jobs = [(dsrc, os.path.join(bd, 'driver.o'))]
        for s in front.src_files():
            jobs.append((s, os.path.join(od, hashlib.sha256(s.encode()).hexdigest()[:12] + '.o')))

        def comp(j):
            s, o = j
            if os.path.exists(o):
                return 0, ''
            tmp = o + '.%d.tmp' % os.getpid()
            r = subprocess.run(CXX + inc + (['-fno-access-control'] if s == dsrc else []) + ['-c', s, '-o', tmp], capture_output=True, text=True, timeout=timeout)
            if r.returncode == 0:
                os.replace(tmp, o)
            return r.returncode, r.stderr
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, jobs))
        bad = [(j[0], r[1]) for j, r in zip(jobs, res) if r[0]]
        if bad:
            raise CxxError('harness does not compile: %s' % '\n'.join('%s: %s' % (a, b[:1500]) for a, b in bad))
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(['clang++'] + SAN + ['-o', tmp] + [j[1] for j in jobs], capture_output=True, text=True)
        if r.returncode:
            raise CxxError('harness does not link: %s' % r.stderr[:1500])
        os.replace(tmp, exe)
        self.build_s = time.time() - t
        return exe

    # ------------------------------------------------------ codec
    def enc(self, t, v, out):
        k = t.k
        if k == 'int':
            out.append(str(int(v or 0)))
        elif k == 'bool':
            out.append('1' if v else '0')
        elif k == 'float':
            out.append(fl(v))
        elif k == 'mat':
            if v is None:
                r, c = max(t.a[0], 0), max(t.a[1], 0)
                v = dict(r=r, c=c, d=[0.0] * (r * c))
            out.append('%d %d' % (v['r'], v['c']))
            out.extend(fl(x) for x in v['d'])
        elif k == 'quat':
            out.extend(fl(x) for x in (v or [1, 0, 0, 0]))
        elif k == 'string':
            out.append('$' + ''.join(ch if ch.isalnum() and ord(ch) < 128 or ch in '_./' else '%%%02x' % ord(ch) for ch in (v or '')))
        elif k == 'shared':
            out.append(str(v or 0))
        elif k == 'ptr':
            out.append(v or 'null')
        elif k in ('vector', 'deque', 'set'):
            v = v or []
            out.append(str(len(v)))
            for x in v:
                self.enc(t.a[0], x, out)
        elif k in ('umap', 'map'):
            v = v or []
            out.append(str(len(v)))
            for a, b in v:
                self.enc(t.a[0], a, out)
                self.enc(t.a[1], b, out)
        elif k == 'pair':
            v = v or {}
            self.enc(t.a[0], v.get('first'), out)
            self.enc(t.a[1], v.get('second'), out)
        elif k == 'class':
            if is_enum(t.a[0]):
                out.append(str(int(v or 0)))
            else:
                v = v or {}
                for f, ft in self.T.flds[t.a[0]]:
                    self.enc(ft, v.get(f), out)
        else:
            raise CxxError('encode %s' % t)

    def dec(self, t, it):
        k = t.k
        if k == 'int':
            return int(next(it))
        if k == 'bool':
            return next(it) == '1'
        if k == 'float':
            return unfl(next(it))
        if k == 'mat':
            r, c = int(next(it)), int(next(it))
            return dict(r=r, c=c, d=[unfl(next(it)) for _ in range(r * c)])
        if k == 'quat':
            return [unfl(next(it)) for _ in range(4)]
        if k == 'string':
            import re
            return re.sub('%(..)', lambda m: chr(int(m.group(1), 16)), next(it)[1:])
        if k == 'shared':
            return int(next(it))
        if k == 'ptr':
            s = next(it)
            return None if s == 'null' else s
        if k in ('vector', 'deque', 'set'):
            return [self.dec(t.a[0], it) for _ in range(int(next(it)))]
        if k in ('umap', 'map'):
            return [(self.dec(t.a[0], it), self.dec(t.a[1], it)) for _ in range(int(next(it)))]
        if k == 'pair':
            return dict(first=self.dec(t.a[0], it), second=self.dec(t.a[1], it))
        if k == 'class':
            if is_enum(t.a[0]):
                return int(next(it))
            return {f: self.dec(ft, it) for f, ft in self.T.flds[t.a[0]]}
        raise CxxError('decode %s' % t)

    def norm(self, t, v):
        """the value as the driver would echo it (defaults filled in, single precision)"""
        out = []
        self.enc(t, v, out)
        return self.dec(t, iter(' '.join(out).split()))

    # ------------------------------------------------------ running
    def line(self, name, case):
        i, fn = self.fns[name]
        out = [str(i), str(case.get('seed', 1)), str(len(case['objs']))]
        cl = {n: k for k, n in enumerate(self.T.cls)}
        for oid, o in case['objs'].items():
            out.append('%d %d' % (cl[o['cls']], oid))
        out.append(str(len(case['roots'])))
        for nm, r in case['roots'].items():
            out.append('%s %d' % (nm, cl[r['cls']]))
        for oid, o in case['objs'].items():
            self.enc(Ty('class', o['cls']), o['f'], out)
        for nm, r in case['roots'].items():
            self.enc(Ty('class', r['cls']), r['f'], out)
        for t, nm in zip(fn.ptys, fn.names):
            self.enc(t, case['args'].get(nm), out)
        return ' '.join(out)

    def parse(self, name, case, txt):
        i, fn = self.fns[name]
        it = iter(txt.split())
        if next(it) != '1':
            raise CxxError('function not dispatched')
        post = dict(objs={}, roots={}, args={})
        if fn.ret.k != 'void':
            post['ret'] = self.dec(fn.ret, it)
        for t, nm in zip(fn.ptys, fn.names):
            post['args'][nm] = self.dec(t, it)
        for nm, r in case['roots'].items():
            post['roots'][nm] = dict(cls=r['cls'], f=self.dec(Ty('class', r['cls']), it))
        n = int(next(it))
        for _ in range(n):
            c = self.T.cls[int(next(it))]
            oid = int(next(it))
            post['objs'][oid] = dict(cls=c, f=self.dec(Ty('class', c), it))
        return post

    def run(self, name, cases, tmo=10, wall=120):
        """-> list of ('ok', post) / ('crash', text) / ('timeout', text) / None when not run"""
        import tempfile
        res = [None] * len(cases)
        td = tempfile.mkdtemp(prefix='drv', dir=self.wd)
        t0 = time.time()
        try:
            fi, fo, fe = [os.path.join(td, x) for x in ('in', 'out', 'err')]
            with open(fi, 'w') as f:
                for c in cases:
                    f.write(self.line(name, c) + '\n')
            start, bad = 0, 0
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=2000')
            while start < len(cases) and bad < 4 and time.time() - t0 < wall:
                if os.path.exists(fo):
                    os.remove(fo)
                with open(fe, 'w') as e:
                    try:
                        r = subprocess.run([self.exe, fi, fo, str(start), str(tmo)], stdout=subprocess.DEVNULL, stderr=e, timeout=max(5, wall - (time.time() - t0)), env=env, cwd=td)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = None
                cur, done = None, False
                for ln in open(fo) if os.path.exists(fo) else []:
                    if ln.startswith('@ '):
                        cur = int(ln[2:])
                    elif ln.startswith('= '):
                        res[cur] = ('ok', self.parse(name, cases[cur], ln[2:]))
                        cur_done = cur
                        cur = None
                    elif ln.startswith('! done'):
                        done = True
                if done or rc is None or cur is None:
                    break
                err = open(fe).read()
                if rc == 77:
                    raise CxxError('driver: ' + err[:500])
                res[cur] = ('timeout', 'no result within %ds' % tmo) if rc == -14 else ('crash', 'exit status %s\n%s' % (rc, err[:6000]))
                bad += 1
                start = cur + 1
        finally:
            import shutil
            shutil.rmtree(td, ignore_errors=True)
        return res


def fl(v):
    v = 0.0 if v is None else float(v)
    if v != v:
        return 'nan'
    if v in (math.inf, -math.inf):
        return 'inf' if v > 0 else '-inf'
    return repr(v)


def unfl(s):
    s = s.strip('-') if s in ('-nan',) else s
    return float(s)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


# ---------------------------------------------------------------- concrete views
class CNS:
    """named views of one concrete state (the counterpart of contract.NS)"""

    def __init__(self, S, drv, fn, case, ret=None, ghosts=None, pre=None):
        self.__dict__.update(S=S, drv=drv, fn=fn, case=case, _ret=ret, gh=ghosts or {}, pre_=pre)

    def __getattr__(self, name):
        if name == 'ret':
            return spec.cwrap(self.S, self._ret, self.fn.ret, ('ret',))
        if name in self.gh:
            t, v = self.gh[name]
            return spec.cwrap(self.S, v, t, ('ghost', name))
        if name in self.fn.names:
            t = self.fn.ptys[self.fn.names.index(name)]
            v = self.case['args'].get(name)
            return spec.cwrap(self.S, v, t, ('arg', name))
        if name in self.case['roots']:
            return spec.root_view(self.S, name)
        raise AttributeError(name)

    def at(self, name):
        head, _, rest = name.partition('.')
        if not rest:
            return ('arg', head) if head in self.fn.names else ('root', head)
        v = getattr(self, head)
        return v.at(rest)


def state(drv, case):
    T = Types.__new__(Types)
    T.__dict__.update(drv.T.__dict__)
    T.roots = {n: Ty('class', r['cls']) for n, r in case['roots'].items()}
    S = spec.CState.__new__(spec.CState)
    S.objs = {int(k): v for k, v in case['objs'].items()}
    S.roots = {n: r['f'] for n, r in case['roots'].items()}
    S.types = T
    S.S = S
    return S


def normalise(drv, name, case):
    i, fn = drv.fns[name]
    out = dict(objs={}, roots={}, args={}, ghosts=case.get('ghosts', {}), seed=case.get('seed', 1))
    for k, o in case['objs'].items():
        out['objs'][int(k)] = dict(cls=o['cls'], f=drv.norm(Ty('class', o['cls']), o['f']))
    for k, r in case['roots'].items():
        out['roots'][k] = dict(cls=r['cls'], f=drv.norm(Ty('class', r['cls']), r['f']))
    for t, nm in zip(fn.ptys, fn.names):
        out['args'][nm] = drv.norm(t, case['args'].get(nm))
    return out


def f32_all(t, v, drv):
    """round single precision fields"""
    k = t.k
    if k == 'float':
        return f32(v) if t.a[0] == 32 and v is not None and v == v and abs(v) != math.inf else v
    if k == 'mat':
        return None if v is None else dict(v, d=[f32(x) if x == x and abs(x) != math.inf else x for x in v['d']])
    if k == 'quat':
        return None if v is None else [f32(x) for x in v]
    if k in ('vector', 'deque', 'set'):
        return [f32_all(t.a[0], x, drv) for x in v or []]
    if k in ('umap', 'map'):
        return [(a, f32_all(t.a[1], b, drv)) for a, b in v or []]
    if k == 'class' and not is_enum(t.a[0]):
        v = v or {}
        return {f: f32_all(ft, v.get(f), drv) for f, ft in drv.T.flds[t.a[0]] if f in v}
    return v


def round_case(drv, name, case):
    i, fn = drv.fns[name]
    for o in case['objs'].values():
        o['f'] = f32_all(Ty('class', o['cls']), o['f'], drv)
    for r in case['roots'].values():
        r['f'] = f32_all(Ty('class', r['cls']), r['f'], drv)
    for t, nm in zip(fn.ptys, fn.names):
        case['args'][nm] = f32_all(t, case['args'].get(nm), drv)
    return normalise(drv, name, case)


class Ambiguous(Exception):
    """a comparison of computed floating point values is too close to call"""


def judge(drv, name, case, post):
    """-> None (contract holds), or (clause, explanation)"""
    i, fn = drv.fns[name]
    c = fn.c
    spec.CONC = True
    try:
        gh = {n: (parse_ty(t), case['ghosts'][n]) for n, t in c.ghosts}
        p = CNS(state(drv, case), drv, fn, case, ghosts=gh)
        q = CNS(state(drv, post), drv, fn, post, ret=post.get('ret'), ghosts=gh)
        p.__dict__['case_'] = case
        if c.ensures:
            for nm, f in c.ensures(p, q):
                ok, w = spec.holds(f, '')
                if not ok:
                    return nm, w
        if c.cpost:
            for nm, f in c.cpost(p, q):
                ok, w = spec.holds(f, '')
                if not ok:
                    return nm, w
        if c.modifies is not None:
            w = cframe(drv, c, p, case, post)
            if w:
                return 'frame: only the listed state may change', w
        return None
    finally:
        spec.CONC = False


def admissible(drv, name, case):
    i, fn = drv.fns[name]
    c = fn.c
    spec.CONC = True
    try:
        gh = {n: (parse_ty(t), case['ghosts'][n]) for n, t in c.ghosts}
        p = CNS(state(drv, case), drv, fn, case, ghosts=gh)
        for nm, f in (c.requires(p) if c.requires else []):
            if not spec.holds(f, '')[0]:
                return False
        for nm, f in (c.cpre(p) if c.cpre else []):
            if not spec.holds(f, '')[0]:
                return False
        return True
    except (spec.Bad, Ambiguous):
        return False
    finally:
        spec.CONC = False


def jdiff(a, b, path, allowed, out):
    """paths where two json values differ, ignoring allowed prefixes"""
    if path in allowed:
        return
    if isinstance(a, dict) and isinstance(b, dict) and 'd' not in a:
        for k in a:
            jdiff(a[k], b.get(k), path + (k,), allowed, out)
        return
    if a is None and b is None:
        return
    sub = [p for p in allowed if p[:len(path)] == path]
    if isinstance(a, list) and isinstance(b, list):
        if a and isinstance(a[0], tuple) or b and isinstance(b[0], tuple):
            da, db = {k: v for k, v in a}, {k: v for k, v in b}
            if set(da) != set(db):
                out.append(path)
                return
            for k in da:
                jdiff(da[k], db[k], path + (k,), allowed, out)
            return
        if len(a) != len(b):
            out.append(path)
            return
        if sub or (a and isinstance(a[0], dict)):
            for k, (x, y) in enumerate(zip(a, b)):
                jdiff(x, y, path + (k,), allowed, out)
            return
        for x, y in zip(a, b):
            if x != y and not (x != x and y != y):
                out.append(path)
                return
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if a['r'] != b['r'] or a['c'] != b['c'] or any(x != y and not (x != x and y != y) for x, y in zip(a['d'], b['d'])):
            out.append(path)
        return
    if a != b and not (isinstance(a, float) and isinstance(b, float) and a != a and b != b):
        out.append(path)


def cframe(drv, c, p, case, post):
    from .contract import Heap, Part
    mods = list(c.modifies(p))
    allowed = set()
    heaps = []
    for m in mods:
        if m is None:
            continue
        if isinstance(m, Heap):
            heaps.append(m)
        elif isinstance(m, spec.CRef):
            allowed.add(m.path)
        elif isinstance(m, (spec.CObj, spec.CSeq, spec.CMap)):
            allowed.add(m.path)
        elif isinstance(m, tuple):
            allowed.add(m)
    out = []
    for nm, r in case['roots'].items():
        jdiff(r['f'], post['roots'][nm]['f'], ('root', nm), allowed, out)
    for nm in case['args']:
        jdiff(case['args'][nm], post['args'][nm], ('arg', nm), allowed, out)
    for oid, o in case['objs'].items():
        al = set(allowed)
        skip = False
        for h in heaps:
            if h.cls != o['cls']:
                continue
            if h.cond is not None and not spec.holds(h.cond(oid))[0]:
                continue
            if h.field is None:
                skip = True
            else:
                al.add(('obj', oid) + tuple(h.field.split('.')))
        if not skip:
            jdiff(o['f'], post['objs'][oid]['f'], ('obj', oid), al, out)
    return ', '.join('.'.join(map(str, x)) for x in out[:5]) if out else None


# ---------------------------------------------------------------- generation
class Gen:
    """builder of random concrete cases"""

    def __init__(self, drv, name, rng):
        self.drv, self.name, self.rng = drv, name, rng
        self.fn = drv.fns[name][1]
        self.objs, self.roots, self.args, self.ghosts = {}, {}, {}, {}
        self.nid = 0

    def new(self, cls, **f):
        self.nid += 1
        self.objs[self.nid] = dict(cls=cls, f=f)
        return self.nid

    def root(self, name, cls, **f):
        self.roots[name] = dict(cls=cls, f=f)
        return self.roots[name]['f']

    def real(self, s=1.0):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return 0.0
        if k < 0.3:
            return float(r.randint(-3, 3)) * s / 2
        return r.uniform(-1, 1) * s

    def vec(self, n, s=1.0):
        return dict(r=n, c=1, d=[self.real(s) for _ in range(n)])

    def mat(self, r, c, s=1.0):
        return dict(r=r, c=c, d=[self.real(s) for _ in range(r * c)])

    def sym(self, n, s=1.0, spd=True):
        import numpy as np
        a = np.array([[self.rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        m = (a @ a.T / max(n, 1) + np.eye(n) * 0.3) * s if spd else (a + a.T) / 2 * s
        return dict(r=n, c=n, d=[float(x) for x in m.flatten()])

    def quat(self, ang=math.pi):
        r = self.rng
        ax = [r.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in ax)) or 1.0
        th = r.uniform(-ang, ang) / 2
        return [math.cos(th)] + [math.sin(th) * x / n for x in ax]

    def val(self, t, depth=0):
        """arbitrary value of a type"""
        r = self.rng
        k = t.k
        if k == 'int':
            return r.choice([0, 1, 2, 3, 4, 5, 7])
        if k == 'bool':
            return r.random() < 0.5
        if k == 'float':
            return self.real(2.0)
        if k == 'mat':
            return self.mat(t.a[0] if t.a[0] >= 0 else r.randint(0, 4), t.a[1] if t.a[1] >= 0 else r.randint(0, 4))
        if k == 'quat':
            return self.quat()
        if k == 'shared':
            c = t.a[0].a[0]
            have = [i for i, o in self.objs.items() if o['cls'] == c]
            x = r.random()
            if have and x < 0.4:
                return r.choice(have)
            if x < 0.5 or depth > 4:
                return 0
            i = self.new(c)
            self.objs[i]['f'] = self.val(t.a[0], depth + 1)
            return i
        if k in ('vector', 'deque'):
            return [self.val(t.a[0], depth + 1) for _ in range(r.randint(0, 3))]
        if k in ('umap', 'map'):
            ks = {}
            for _ in range(r.randint(0, 3)):
                ks[self.val(t.a[0])] = 1
            return [(a, self.val(t.a[1], depth + 1)) for a in ks]
        if k == 'class':
            if is_enum(t.a[0]):
                return r.choice([0, 1, 2, 3, 4])
            return {f: self.val(ft, depth + 1) for f, ft in self.drv.T.flds[t.a[0]]}
        return None

    def fill(self):
        """missing roots / arguments get arbitrary values"""
        fn = self.fn
        if not fn.static and 'this' not in self.roots:
            self.root('this', fn.cls)
            self.roots['this']['f'] = self.val(Ty('class', fn.cls))
        for t, nm in zip(fn.ptys, fn.names):
            if nm not in self.args:
                self.args[nm] = self.val(t)
        for n, t in fn.c.ghosts:
            if n not in self.ghosts:
                self.ghosts[n] = f32_all(parse_ty(t), self.val(parse_ty(t)), self.drv)

    def case(self):
        self.fill()
        c = dict(objs=self.objs, roots=self.roots, args=self.args, ghosts=self.ghosts, seed=self.rng.randint(1, 10 ** 6))
        return round_case(self.drv, self.name, c)


def generate(drv, name, n, seed, wall=60):
    """n admissible cases (or as many as can be made in the time)"""
    c = drv.fns[name][1].c
    rng = random.Random('%s/%s' % (name, seed))
    out, tries, t0 = [], 0, time.time()
    while len(out) < n and tries < 40 * n + 400 and time.time() - t0 < wall:
        tries += 1
        G = Gen(drv, name, rng)
        if c.gen:
            c.gen(G)
        case = G.case()
        if admissible(drv, name, case):
            out.append(case)
    return out, tries


def explore(drv, name, n, seed, wall=100, tmo=10, chunk=200):
    """bounded search for a failing input: -> dict(status, cases, tries, failure)"""
    t0 = time.time()
    done, tries = 0, 0
    amb = 0
    sd = seed
    crashes = 0
    while done < n and time.time() - t0 < wall:
        cases, tr = generate(drv, name, min(chunk, n - done), '%s/%d' % (seed, tries), wall=max(2, wall - (time.time() - t0)) * 0.6)
        tries += tr
        if not cases:
            break
        res = drv.run(name, cases, tmo=tmo, wall=max(5, wall - (time.time() - t0)))
        for c, r in zip(cases, res):
            if r is None:
                continue
            done += 1
            if r[0] != 'ok':
                return dict(status='fail', cases=done, tries=tries, ambiguous=amb, failure=dict(clause='runs to completion without a memory error' if r[0] == 'crash' else 'terminates', info=r[1], case=c), t=time.time() - t0)
            try:
                w = judge(drv, name, c, r[1])
            except Ambiguous:
                amb += 1
                continue
            except spec.Bad as e:
                w = ('contract evaluates on the final state', str(e))
            if w:
                return dict(status='fail', cases=done, tries=tries, ambiguous=amb, failure=dict(clause=w[0], info=w[1], case=c, post=r[1]), t=time.time() - t0)
    return dict(status='ok' if done else 'none', cases=done, tries=tries, ambiguous=amb, failure=None, t=time.time() - t0)
