#!/usr/bin/env python3-vt
"""Decides one property: every obligation the VC generator derives from /repo's current source for the
functions under contract must be discharged.  Usage: check.py P01 [quick|thorough]"""
import glob, hashlib, importlib, json, multiprocessing as mp, os, re, sys, time, traceback, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ['PYTHONHASHSEED'] = '0'
sys.setrecursionlimit(20000)
WORK = os.path.join(HERE, '.cache')

TRUSTED = [
    'clang 18 parses the source to the AST the compiler uses (the VC generator interprets that AST; no hand-written copy of the code)',
    'the VC generator vc/*.py: its reading of C++ statements and expressions, loop cutting, path enumeration and polynomial normaliser',
    'z3 4.8.12 (and cvc5 1.1.2 where z3 gives up)',
    'models of the C++ standard containers, iterators and smart pointers (vc/stl.py)',
    'models of the Eigen operations used (vc/egn.py): products, blocks, transposes, quaternions; decompositions by their defining equations',
]
ASSUME = [
    'floating point arithmetic is treated as exact real arithmetic (rounding, overflow and loss of significance are not covered); double and float literals have their exact binary value',
    'each container holds fewer than 2^30 elements; unsigned arithmetic is checked for wrap-around only where an obligation names it',
    'single-threaded use; logging and timing calls have no effect on the state',
]


def child(args):
    """verify one contract in its own process"""
    idx, budget, tier = args
    from vc import eng, ev
    c, prog, reg = G['contracts'][idx], G['prog'], G['reg']
    t = time.time()
    out = dict(idx=idx, name=c.name, obls=[], error=None, stats={}, assumptions=[], inlined=[], modular=[], t=0)
    E = None
    try:
        E = eng.Engine(prog)
        x = ev.Interp(prog)
        x.contracts = reg
        if c.budget is None or c.budget > budget:
            c.budget = budget
        c.verify(E, x, tier)
    except eng.Unsupported as e:
        out['error'] = 'unsupported: %s' % e
    except RecursionError as e:
        out['error'] = 'unsupported: recursion too deep'
    except Exception as e:
        out['error'] = 'unsupported: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    if E is not None:
        out['obls'] = [dict(o, info=str(o['info'])[:3000], where=str(o['where']) if o['where'] else None) for o in E.obls]
        out['stats'] = E.stats
        out['assumptions'] = sorted(E.assumptions)
        out['inlined'] = sorted(map(str, E.inlined))
        out['modular'] = sorted(map(str, E.modular))
    out['t'] = time.time() - t
    return out


G = {}


def run_all(cs, prog, reg, budget, deadline, tier):
    G.update(contracts=cs, prog=prog, reg=reg)
    todo = [i for i, c in enumerate(cs) if not c.bounded]
    if not todo:
        return {}
    import gc
    gc.freeze()
    ctx = mp.get_context('fork')
    res = {}
    running = {}
    queue = list(todo)
    while queue or running:
        while queue and len(running) < 8:
            i = queue.pop(0)
            r, w = ctx.Pipe(False)

            def job(i=i, w=w):
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
                except Exception:
                    pass
                try:
                    w.send(child((i, budget, tier)))
                except BaseException as e:
                    try:
                        w.send(dict(idx=i, name=cs[i].name, obls=[], error='unsupported: %s' % e, stats={}, assumptions=[], inlined=[], modular=[], t=0))
                    except BaseException:
                        pass
                finally:
                    w.close()
                    os._exit(0)
            p = ctx.Process(target=job)
            p.start()
            w.close()
            running[i] = (p, r, time.time())
        time.sleep(0.05)
        for i, (p, r, t0) in list(running.items()):
            got = None
            if r.poll():
                try:
                    got = r.recv()
                except EOFError:
                    got = dict(idx=i, name=cs[i].name, obls=[], error='unsupported: verifier process died', stats={}, assumptions=[], inlined=[], modular=[], t=time.time() - t0)
            elif time.time() > deadline or time.time() - t0 > budget + 60:
                p.kill()
                got = dict(idx=i, name=cs[i].name, obls=[], error='timeout: no result within %ds' % (time.time() - t0), stats={}, assumptions=[], inlined=[], modular=[], t=time.time() - t0)
            if got is not None:
                p.join(5)
                r.close()
                del running[i]
                res[i] = got
    return res


def known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'finding: property=(\w+) contract=(\S+) clause="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
        return repr(o)
    return o


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    from vc import front, concrete, eng, ev
    prog = front.load(WORK)
    eng.Engine(prog), ev.Interp(prog)
    t_front = time.time() - t0
    mod = importlib.import_module('contracts.' + pid.lower())
    cs = list(mod.CONTRACTS)
    from contracts import registry
    reg = registry.build(prog)
    # dependencies: contracts applied at call sites are verified by the same check
    budget = 3000 if thorough else 420
    deadline = t0 + (3400 if thorough else 560)
    res = run_all(cs, prog, reg, budget, deadline, tier)
    used = set()
    for r in res.values():
        used |= set(r['modular'])
    have = {c.key for c in cs}
    extra = [c for c in registry.all_contracts() if c.key in used and c.key not in have and c.pid != pid]
    deps = {}
    if getattr(mod, 'CHECK_DEPS', True) and extra and time.time() < deadline - 60:
        base = len(cs)
        sub = run_all(extra, prog, reg, budget, deadline, tier)
        for i, r in sub.items():
            res[base + i] = dict(r, idx=base + i)
        for k, c in enumerate(extra):
            deps[base + k] = True
        cs = cs + extra
    t_verify = time.time() - t0 - t_front
    # ------------------------------------------------------------ verdicts
    nobl = ndis = 0
    fails, undecided, bounded = [], [], []
    for i, c in enumerate(cs):
        if c.bounded:
            bounded.append((i, c, 'bounded by design: ' + c.bounded))
            continue
        r = res.get(i) or dict(obls=[], error='not run', stats={}, t=0)
        nobl += len(r['obls'])
        ndis += sum(o['status'] == 'ok' for o in r['obls'])
        bad = [o for o in r['obls'] if o['status'] == 'fail']
        unk = [o for o in r['obls'] if o['status'] not in ('ok', 'fail')]
        if bad:
            fails.append((i, c, bad))
        if r['error'] or unk and not bad:
            bounded.append((i, c, r['error'] or 'not decided in time: %s' % unk[0]['name']))
    # ------------------------------------------------------------ concrete replay / stand-in
    conc = []
    violation = None
    need = [(i, c, 'replay') for i, c, b in fails] + [(i, c, 'stand-in') for i, c, b in bounded if i not in {x[0] for x in fails}]
    if thorough:
        need += [(i, c, 'conformance') for i, c in enumerate(cs) if i not in {x[0] for x in need}]
    drv = None
    drv_err = None
    if need:
        try:
            drv = concrete.Driver(prog, WORK, registry.drivable(cs))
            drv.build()
        except Exception as e:
            drv, drv_err = None, '%s: %s' % (type(e).__name__, str(e)[:1500])
    limit = t0 + (5400 if thorough else 840)
    kn = known(pid)
    found = []
    if drv is not None:
        order = sorted(need, key=lambda x: ('replay', 'stand-in', 'conformance').index(x[2]))
        jobs = [(i, c, why) for i, c, why in order if c.name in drv.fns]
        for i, c, why in order:
            if c.name not in drv.fns and c.concrete is not False:
                conc.append(dict(function=c.name, purpose=why, status='not executable', info=drv.skipped.get(c.name)))
        G['drv'] = drv
        left = max(20, limit - time.time())
        wall = min(left * 0.8 / max(1, -(-len(jobs) // 8)), 3000 if thorough else (200 if why_any(jobs, 'replay') else 70)) if jobs else 0
        n = {'replay': 4000, 'stand-in': 2500, 'conformance': 4000}
        for (i, c, why), r in zip(jobs, pmap(conc_job, [(c.name, int((c.ncases / 400.0) * n[why] * (4 if thorough else 1)), seed, wall) for i, c, why in jobs])):
            r = r or dict(status='error', cases=0, tries=0, failure=None, t=0)
            conc.append(dict(function=c.name, purpose=why, status=r['status'], cases=r['cases'], tries=r['tries'], seconds=round(r['t'], 1), ambiguous=r.get('ambiguous', 0), info=r.get('error')))
            if r.get('failure'):
                found.append((i, c, why, r['failure']))
    # ------------------------------------------------------------ report
    rep = os.path.join(HERE, 'evidence', '%s.replay.json' % pid)
    lines = []
    nviol = 0
    used_known = set()

    def is_known(c, clause):
        for k in kn:
            if k[0] == c.name.replace(' ', '') and k[1] == clause:
                used_known.add(k)
                return True
        return False
    for i, c, why, f in found:
        if is_known(c, f['clause']):
            continue
        if violation is None:
            violation = dict(property=pid, function=c.name, clause=f['clause'], explanation=f['info'], failing_input=f['case'], result=f.get('post'),
                             failed_obligations=[o for a, cc, b in fails if cc is c for o in b][:5],
                             how='driver %s: build with vc/concrete.py and feed the case' % (drv.exe if drv else ''))
        nviol += 1
    suffix = ''
    if violation is None:
        real = []
        for i, c, b in fails:
            b2 = [o for o in b if not is_known(c, o['name'])]
            if b2:
                real.append((c, b2))
        if real:
            c, b = real[0]
            suffix = ' no-failing-input-found'
            nviol = len(real)
            violation = dict(property=pid, function=c.name, clause=b[0]['name'], failed_obligation=b[0], verifier_output=b[0]['info'], all_failed=[dict(function=cc.name, obligations=bb[:5]) for cc, bb in real],
                             search=[x for x in conc if x.get('purpose') == 'replay'], driver_error=drv_err)
    for k in sorted(used_known) if violation is None or True else []:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    trusted = list(TRUSTED)
    assumptions = list(ASSUME) + list(getattr(mod, 'ASSUMPTIONS', []))
    for i, c in enumerate(cs):
        for a in (res.get(i) or {}).get('assumptions', []):
            if a not in assumptions:
                assumptions.append(a)
        for a in c.trusted:
            if a not in trusted:
                trusted.append(a)
        if c.note and c.note not in assumptions:
            assumptions.append(c.note)
    back = {}
    solver_s = 0.0
    for r in res.values():
        for o in r['obls']:
            if o['status'] == 'ok':
                b = o['info'] if o['info'] in ('trivial', 'normaliser', 'z3', 'cvc5', 'matrix algebra', 'normaliser after z3 equalities', 'path infeasible') else 'other'
                back[b] = back.get(b, 0) + 1
        solver_s += r['stats'].get('solver_s', 0)
    nb = [c.name for i, c, w in bounded]
    cov = dict(obligations=nobl, discharged=ndis,
               checker_cmd='python3-vt check.py %s %s  (VC generation from clang AST of /repo; back ends z3, cvc5, polynomial normaliser)' % (pid, tier),
               trusted_base=trusted,
               functions_under_contract=[dict(function=c.name, obligations=len((res.get(i) or {}).get('obls', [])),
                                              discharged=sum(o['status'] == 'ok' for o in (res.get(i) or {}).get('obls', [])),
                                              paths=(res.get(i) or {}).get('stats', {}).get('paths'), seconds=round((res.get(i) or {}).get('t', 0), 1),
                                              dependency=bool(deps.get(i)), bounded=c.name in nb,
                                              inlined=(res.get(i) or {}).get('inlined', []), callee_contracts=(res.get(i) or {}).get('modular', [])) for i, c in enumerate(cs)],
               discharged_by=back, solver_seconds=round(solver_s, 2), front_end_seconds=round(t_front, 1),
               by_kind=count(res), bounded_functions=[dict(function=c.name, reason=w) for i, c, w in bounded],
               concrete_runs=conc, undischarged=[dict(function=cs[i].name, obligation=o['name'], status=o['status'], info=o['info'][:300]) for i, r in res.items() for o in r['obls'] if o['status'] != 'ok'][:50],
               sources_hash=front.tree_hash(), samples=[dict(function=cs[i].name, obligation=o['name'], kind=o['kind'], status=o['status'], by=o['info'][:80]) for i, r in sorted(res.items()) for o in r['obls'][:3]][:20])
    if drv_err:
        cov['driver_error'] = drv_err
    level = getattr(mod, 'LEVEL', 'proof')
    if conc:
        cov['evaluations'] = sum(x.get('cases', 0) for x in conc)
        cov['distinct_nontrivial'] = cov['evaluations']
        cov['rule'] = 'random states satisfying the precondition, built by the generator of each contract; the real code runs on them under the address sanitizer'
    if level != 'proof':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=nviol)
    tmp = os.path.join(HERE, 'evidence', '%s.json.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(jsonable(ev), f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    print('%s: %d/%d obligations discharged, %d functions, %d bounded, verify %.0fs, total %.0fs' % (pid, ndis, nobl, len(cs), len(bounded), t_verify, time.time() - t0))
    if not nobl and not any(x.get('cases') for x in conc):
        print('UNDECIDED property=%s nothing could be verified or executed' % pid)
    for i, c, w in bounded:
        print('  BOUNDED %s: %s' % (c.name, w.split('\n')[0][:200]))
    for x in conc:
        print('  run %s (%s): %s, %s cases %s' % (x['function'], x['purpose'], x['status'], x.get('cases', 0), (x.get('info') or '')[:200]))
    if drv_err:
        print('  driver: %s' % drv_err[:400])
    if violation is not None:
        with open(rep, 'w') as f:
            json.dump(jsonable(violation), f, indent=1)
        print('  %s: %s: %s' % (violation['function'], violation['clause'], str(violation.get('explanation') or violation.get('verifier_output'))[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(rep, HERE), suffix))
        sys.stdout.flush()
        os._exit(1)
    if os.path.exists(rep):
        os.unlink(rep)
    sys.stdout.flush()
    os._exit(0)


def why_any(jobs, w):
    return any(x[2] == w for x in jobs)


def count(res):
    out = {}
    for r in res.values():
        for o in r['obls']:
            out[o['kind']] = out.get(o['kind'], 0) + 1
    return out


def conc_job(a):
    from vc import concrete
    name, n, seed, wall = a
    try:
        return concrete.explore(G['drv'], name, n, seed, wall=wall)
    except Exception as e:
        return dict(status='error', cases=0, tries=0, failure=None, t=0, error='%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:]))


def pmap(f, args):
    if not args:
        return []
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, len(args))) as p:
        return p.map(f, args, chunksize=1)


if __name__ == '__main__':
    main()
