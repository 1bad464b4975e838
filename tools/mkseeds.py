#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from the table in seeds.py (patch against /repo HEAD made in a scratch worktree)."""
import os, sys, subprocess, json, importlib.util
V = '/verif'
spec = importlib.util.spec_from_file_location('seeds', V + '/tools/seeds.py'); S = importlib.util.module_from_spec(spec); spec.loader.exec_module(S)
WT = '/tmp/wtseed'
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 4
g++ -std=c++17 -O1 -w -fopenmp -include array -include limits -include cstdint -D_GLIBCXX_USE_CXX11_ABI=0 \\
    -I/repo/include -I/repo/src -I/usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L/repo/_build/lib -ldeepworks LIBS -Wl,-rpath,/repo/_build/lib || exit 3
cd "$t" && timeout 200 "$t/demo"; rc=$?
rm -f "$t/demo"
exit $rc
'''
HEAD = open(V + '/tools/demo_head.hpp').read()
def main():
    only = sys.argv[1:]
    if not os.path.exists(WT): subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '--detach', WT], stdout=subprocess.DEVNULL)
    try:
        for id, s in S.SEEDS.items():
            if only and id not in only: continue
            subprocess.check_call(['git', '-C', WT, 'checkout', '-q', '--', '.'])
            for f, old, new in s['edits']:
                p = os.path.join(WT, f); t = open(p).read()
                if t.count(old) < 1: print(id, 'NOT FOUND in', f, ':', old[:60]); break
                n = s.get('nth', {}).get(old)
                if n is None:
                    if t.count(old) != 1: print(id, 'ambiguous', t.count(old), old[:60]); break
                    t = t.replace(old, new)
                else:
                    parts = t.split(old); t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
                open(p, 'w').write(t)
            else:
                d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
                diff = subprocess.check_output(['git', '-C', WT, 'diff'])
                open(d + '/patch.diff', 'wb').write(diff)
                open(d + '/demo.sh', 'w').write(s.get('sh', DEMO_SH).replace(' LIBS', ' -lpng -ljpeg' if 'png.h' in s['demo'] else '')); os.chmod(d + '/demo.sh', 0o755)
                open(d + '/demo.cpp', 'w').write(HEAD + s['demo'])
                if 'ade' in s: subprocess.check_call(['cp', '-r', V + '/stubs/ade_include', d + '/'])
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', WT])
        subprocess.call(['git', '-C', '/repo', 'worktree', 'prune'])
main()
