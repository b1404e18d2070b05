"""developer tool: concrete exploration of contracts"""
import sys, time, importlib
sys.path.insert(0, '/verif')
from vc import front, eng, ev, spec, contract, concrete
p = front.load('/verif/.cache')
E = eng.Engine(p); x = ev.Interp(p)
mods = [a for a in sys.argv[1:] if a[0] != '-']
n = int(next((a[2:] for a in sys.argv if a.startswith('-n')), 300))
cs = []
sel = {}
for m in mods:
    nm, _, k = m.partition(':')
    mod = importlib.import_module('contracts.' + nm)
    cs += mod.CONTRACTS
    sel.update({c.name: 1 for i, c in enumerate(mod.CONTRACTS) if not k or str(i) in k.split(',')})
d = concrete.Driver(p, '/verif/.cache', cs)
print('skipped', d.skipped)
t = time.time(); d.build(); print('build %.1f' % (time.time() - t))
for nm in d.fns:
    if nm not in sel: continue
    r = concrete.explore(d, nm, n, 1)
    f = r['failure']
    print(nm, r['status'], r['cases'], 'tries', r['tries'], 'amb', r['ambiguous'], '%.1fs' % r['t'])
    if f:
        print('   ', f['clause'], str(f['info'])[:1500])
        if '-v' in sys.argv: print(f['case']); print(f.get('post'))
