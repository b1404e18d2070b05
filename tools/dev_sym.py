import sys,time,importlib
sys.path.insert(0,'/verif')
from vc import front,eng,ev,spec,contract,egn
p=front.load('/verif/.cache')
from contracts import registry
reg=registry.build(p)
def run(c, dbg=True):
    if '-p' in sys.argv:
        o0 = eng.Engine.oblige
        def ob(self, name, f, where=None, kind='safety'):
            t = time.time(); r = o0(self, name, f, where, kind)
            if time.time() - t > 1: print('   %.1f' % (time.time() - t), kind, name, self.obls[-1]['status'], flush=True)
            return r
        eng.Engine.oblige = ob
    t=time.time()
    E=eng.Engine(p); x=ev.Interp(p); x.contracts=reg
    try:
        c.verify(E,x)
    except eng.Unsupported as e:
        import traceback; traceback.print_exc()
        print('UNSUPPORTED',e)
    bad=[o for o in E.obls if o['status']!='ok']
    print(c.name,len(E.obls),'obl',len(bad),'bad','%.1fs'%(time.time()-t),{k:(round(v,1) if isinstance(v,float) else v) for k,v in E.stats.items()})
    for o in E.obls:
        if dbg and o['status']!='ok': print('  ',o['status'],o['kind'],o['name'],str(o['info'])[:400])
    if '-t' in sys.argv:
        for o in sorted(E.obls,key=lambda o:-o['t'])[:12]: print('   T %.1f %s %s %s'%(o['t'],o['kind'],o['name'],o['info'][:80]))
    return E
if __name__=='__main__':
    for m in [a for a in sys.argv[1:] if a[0]!='-']:
        nm,_,k=m.partition(':')
        mod=importlib.import_module('contracts.'+nm)
        for i,c in enumerate(mod.CONTRACTS):
            if k and str(i) not in k.split(','): continue
            run(c)
