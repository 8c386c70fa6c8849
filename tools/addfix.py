"""python tools/addfix.py <property> <commit-subject-part> <what failed>: records a repair (development helper)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, sub, what = sys.argv[1:]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()
h = [l.split()[0] for l in log if sub in l]
assert len(h) == 1, h
f = os.path.join(V, 'known_findings.json')
F = json.load(open(f))['findings']
F.append(dict(property=p, key=h[0], status='fixed', commit=h[0], what=what, line='fixed: property=%s %s %s' % (p, h[0], what)))
open(f, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in F) + '\n]}\n')
