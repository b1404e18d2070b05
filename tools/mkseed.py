"""write /verif/seeded/<id>/ from a description: mkseed.seed(id, property, file, [(old, new)], demo C++ text, needs, breaks)"""
import json, os, subprocess, shutil
V = '/verif/seeded'
DEMO = '''#!/bin/bash
# run in /repo after the build: exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
b=eskf_vio_backend
inc="-I/usr/include/eigen3"
for i in $(find $b/include -type d); do inc="$inc -I$i"; done
echo "$(find $b/src -name '*.cpp' | sort)" | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -fno-access-control '"$inc"' -c {} -o '"$d"'/$(echo {} | tr / _).o' || exit 2
g++ -std=c++17 -O0 -fno-access-control $inc "$here/demo.cpp" "$d"/*.o -o "$d/demo" || exit 2
cd "$d" && timeout 100 ./demo
'''
HEAD = '''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <fstream>
#include <backend.hpp>
using namespace ESKF_VIO_BACKEND;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAIL line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
template <class T> bool near(const T &a, const T &b, double eps = 1e-4) { return (a - b).norm() <= eps; }
'''


def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    files = []
    for f, old, new in edits:
        p = '/repo/eskf_vio_backend/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        if f not in files:
            files.append(f)
        open(p, 'w').write(s.replace(old, new))
    try:
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
