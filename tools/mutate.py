"""developer tool: run the checks against small changes of a copy of /repo.  mutate.py tools/mut/x.py [index...]"""
import os, re, shutil, subprocess, sys, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [int(a) for a in sys.argv[2:] if a.isdigit()]
for k, m in enumerate(ns['MUT']):
    if sel and k not in sel: continue
    prop, fn, old, new = m[:4]
    tmp = '/tmp/mut_%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shutil.copytree('/repo/eskf_vio_backend', tmp + '/eskf_vio_backend', ignore=shutil.ignore_patterns('build'))
    p = tmp + '/eskf_vio_backend/' + fn
    s = open(p).read()
    if s.count(old) < 1:
        print(k, 'PATTERN NOT FOUND', old); continue
    n = m[4] if len(m) > 4 else 1
    i = -1
    for _ in range(n): i = s.index(old, i + 1)
    s = s[:i] + new + s[i + len(old):]
    open(p, 'w').write(s)
    t = time.time()
    for q in prop.split():
        r = subprocess.run(['python3-vt', '/verif/check.py', q], env=dict(os.environ, VP_REPO=tmp), capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print('%d %s rc=%d %.0fs %s | %s -> %s' % (k, q, r.returncode, time.time() - t, (v[0].split(' ', 3)[3:] or ['input']) if v else 'QUIET', old.strip()[:60], new.strip()[:60]))
        ls = [l for l in r.stdout.split('\n') if l.strip()]
        if not v or len(v[0].split()) > 3: print('      ' + '\n      '.join(ls[-5:])[:1200]); print(r.stderr[-500:])
        else: print('      ' + (ls[-2][:220] if len(ls) > 1 else ''))
    sys.stdout.flush()
    shutil.rmtree(tmp, ignore_errors=True)
