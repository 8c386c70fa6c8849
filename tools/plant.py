#!/usr/bin/python3
"""Development aid: writes seeded/<id>/ from a spec file:  plant.py SPEC.py
SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo=python source of the demonstration)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 while the property holds, nonzero when it is broken; cwd is the built repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
for b in runpy.run_path(sys.argv[1])['BUGS']:
    d = os.path.join(V, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    w = '/tmp/plant'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % w, shell=True, check=True)
    subprocess.run('git init -q . && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=w, check=True)
    for e in b['edits']:
        f, old, new = e[0], e[-2], e[-1]
        p = os.path.join(w, f)
        t = open(p).read()
        if len(e) == 4:         # first occurrence at or after the line e[1]
            ls = t.split('\n')
            head, tail = '\n'.join(ls[:e[1] - 1]), '\n'.join(ls[e[1] - 1:])
            assert old in tail, (b['id'], old)
            open(p, 'w').write((head + '\n' if head else '') + tail.replace(old, new, 1))
            continue
        assert t.count(old) == 1, '%s: %d occurrences of %r in %s' % (b['id'], t.count(old), old, f)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    f = None
    for line in diff.splitlines():      # changed lines have to be original ones
        if line.startswith('--- a/'):
            orig = subprocess.run(['git', '-C', '/repo', 'show', 'cd2b347:' + line[6:]], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif line.startswith('-') and line[1:] not in orig:
            print('   NOT ORIGINAL', line[:100])
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], diff.count('\n-') - diff.count('\n---'), 'lines')
