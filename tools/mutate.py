#!/usr/bin/python3
"""Development aid: small random changes of the sources, in scratch copies, against the checks.

  mutate.py COUNT [--seed S] [--files GLOB,...] [-j N] [--scale F]

Each mutant changes one place of one file of the package.  It runs the checks listed for that file until one of them
reports it.  Mutants that no check reports are written to /tmp/mut/survivors.jsonl, to be looked at by hand: either they
keep the behaviour or the checks have a gap.  Nothing is written in /repo or in /verif.
"""
import argparse
import fnmatch
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
ALL = ['C%02d' % i for i in range(1, 27)]
MAP = [
    ('panels/core/src/legendre*', 'C02 C04'),
    ('panels/core/src/bardell_functions*', 'C01 C12'),
    ('panels/core/*', 'C01 C02 C03 C04 C12'),
    ('panels/models/*num*', 'C04 C05 C06 C07 C10 C12 C15 C11'),
    ('panels/models/*field*', 'C12 C10 C09'),
    ('panels/models/*', 'C04 C06 C08 C11 C05 C12 C09 C15'),
    ('panels/shell.py', 'C18 C23 C04 C06 C05 C08 C11 C12 C09 C07 C10 C17 C26 C03 C20'),
    ('panels/shell_fext.py', 'C09 C18 C23'),
    ('panels/plot_shell.py', 'C24'),
    ('panels/multidomain/connections/*', 'C13 C14 C19 C09 C12'),
    ('panels/multidomain/multidomain.py', 'C15 C12 C14 C18 C23 C24 C13 C21 C26 C10 C09'),
    ('panels/multidomain/*', 'C21 C23'),
    ('panels/stiffpanelbay/*', 'C19 C18 C23 C24 C20 C15 C26 C16'),
    ('panels/stiffener/*', 'C19 C23 C18 C15'),
    ('panels/dev/*', 'C25'),
    ('*', ' '.join(ALL)),
]
SWAPS = [('x', 'y'), ('xs', 'ys'), ('a', 'b'), ('m', 'n'), ('nx', 'ny'), ('u', 'v'), ('v', 'w'), ('x1', 'x2'), ('y1', 'y2'), ('Nxx', 'Nyy'), ('Nyy', 'Nxy'),
         ('p1', 'p2'), ('i', 'j'), ('row0', 'col0'), ('nx', 'm'), ('ny', 'n'), ('xi', 'eta'), ('fx', 'fy'), ('x0', 'y0'), ('m1', 'm2'), ('n1', 'n2'), ('a1', 'a2'),
         ('b1', 'b2'), ('gridx', 'gridy'), ('kt', 'kr'), ('row_start', 'col_start'), ('bb', 'bf'), ('dpb', 'h'), ('rho', 'h'), ('kC', 'kG'), ('funcx', 'funcy'),
         ('xcte', 'ycte'), ('d', 'h'), ('beta', 'gamma'), ('A', 'B'), ('B', 'D'), ('A11', 'A12'), ('A16', 'A26'), ('B16', 'B26'), ('B11', 'B12'), ('D16', 'D26'),
         ('D11', 'D12'), ('D12', 'D22'), ('A12', 'A22'), ('exx', 'eyy'), ('kxx', 'kyy'), ('kyy', 'kxy'), ('wx', 'wy'), ('fxi', 'geta')]
PAIR = {}
for p, q in SWAPS:
    PAIR.setdefault(p, []).append(q)
    PAIR.setdefault(q, []).append(p)


def code_lines(text, py):
    """Numbers of the lines that hold code (no comments, no doc strings)"""
    out, doc = [], None
    for k, l in enumerate(text.split('\n')):
        s = l.strip()
        if doc:
            if doc in s:
                doc = None
            continue
        if py:
            q = re.match(r'[rub]*("""|\'\'\')', s)
            if q:
                if s.count(q.group(1)) == 1:
                    doc = q.group(1)
                continue
        else:
            if s.startswith('/*'):
                if '*/' not in s:
                    doc = '*/'
                continue
        if not s or s.startswith(('#', '//', 'import ', 'from ', 'cimport ', 'def ', 'class ', '@', 'raise', 'msg(', 'return;', '*')):
            continue
        out.append(k)
    return out


def sites(l, py):
    """(start, end, replacement) of the changes of a line"""
    code = l
    if py:
        k = l.find('#')
        if k >= 0:
            code = l[:k]
    masked = re.sub(r"('[^'\n]*'|\"[^\"\n]*\")", lambda m: '\0' * len(m.group()), code)
    r = []
    for m in re.finditer(r'[A-Za-z_]\w*', masked):
        w = m.group()
        for q in PAIR.get(w, []):
            r.append((m.start(), m.end(), q))
        for k in range(len(w)):
            if len(w) > 3 and w[k] in 'uvw' and re.match(r'[fg][AB]', w):
                for q in 'uvw'.replace(w[k], ''):
                    r.append((m.start(), m.end(), w[:k] + q + w[k + 1:]))
        if w in ('True', 'False'):
            r.append((m.start(), m.end(), 'False' if w == 'True' else 'True'))
        if w in ('and', 'or'):
            r.append((m.start(), m.end(), 'or' if w == 'and' else 'and'))
        if w == 'not':
            r.append((m.start(), m.end(), ''))
        if w == 'is' and not masked[m.end():].startswith(' not'):
            r.append((m.start(), m.end(), 'is not'))
    for m in re.finditer(r'(?<![\w.])(\d+\.?\d*)(?![\w])', masked):
        t = m.group()
        r.append((m.start(), m.end(), str(int(t) + 1) if t.isdigit() else repr(float(t) * 2 or 1.)))
        if t.isdigit() and int(t) > 0:
            r.append((m.start(), m.end(), str(int(t) - 1)))
    for m in re.finditer(r'(\+=|-=|==|!=|<=|>=|\*\*|[-+*/<>])', masked):
        t = m.group()
        new = {'+=': ['-=', '='], '-=': ['+='], '==': ['!='], '!=': ['=='], '<=': ['<'], '>=': ['>'], '**': ['*'], '-': ['+'], '+': ['-'],
               '*': ['/'], '/': ['*'], '<': ['<='], '>': ['>=']}[t]
        if t == '-' and re.search(r'[(,=\[]\s*$', masked[:m.start()]):
            new = ['']
        for n in new:
            r.append((m.start(), m.end(), n))
    for m in re.finditer(r', \w+=[\w.]+(?=[,)])', masked):
        r.append((m.start(), m.end(), ''))
    if py and re.match(r'\s*[\w.\[\]]+(\s*[-+*/]?=\s*|\().*$', masked) and masked.count('(') == masked.count(')') and not masked.rstrip().endswith((',', '\\', ':')):
        ind = len(l) - len(l.lstrip())
        r += [(ind, len(l), 'pass')] * 3
    return r


def mutants(files, rng):
    table = []
    for f in files:
        text = open('/repo/' + f).read()
        py = f.endswith(('.py', '.pyx'))
        lines = text.split('\n')
        ok = code_lines(text, py)
        if ok:
            table.append((f, lines, ok))
    seen = set()
    while True:
        # a file with a chance that grows with the root of its length
        f, lines, ok = rng.choices(table, [len(t[2]) ** .7 for t in table])[0]
        k = rng.choice(ok)
        s = sites(lines[k], f.endswith(('.py', '.pyx')))
        if not s:
            continue
        a, b, new = rng.choice(s)
        l = lines[k][:a] + new + lines[k][b:]
        if l == lines[k] or (f, k, l) in seen:
            continue
        seen.add((f, k, l))
        text = '\n'.join(lines[:k] + [l] + lines[k + 1:])
        if f.endswith('.py'):
            try:
                compile(text, f, 'exec')
            except SyntaxError:
                continue
        yield f, k + 1, lines[k].strip(), l.strip(), text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('count', type=int)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--files', default='panels/*.py,panels/*.pyx,panels/*.cpp')
    ap.add_argument('--scale', default='1')
    ap.add_argument('-j', type=int, default=3)
    args = ap.parse_args()
    os.makedirs(W, exist_ok=True)
    fs = subprocess.run(['git', '-C', '/repo', 'ls-files'], capture_output=True, text=True).stdout.split()
    fs = [f for f in fs if any(fnmatch.fnmatch(f, g) for g in args.files.split(',')) and '/tests/' not in f and f.startswith('panels/')
          and 'legendre_gauss_quadrature.cpp' not in f and 'version.py' not in f and not f.endswith('bardell.cpp')]
    gen = mutants(fs, random.Random(args.seed))
    lock = threading.Lock()
    left = [args.count]

    def loop(w):
        d = '%s/w%d' % (W, w)
        while True:
            with lock:
                if left[0] <= 0:
                    return
                left[0] -= 1
                f, k, old, new, text = next(gen)
            shutil.rmtree(d + '/repo', ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', 'theory', 'doc', 'build', '*.so'))
            if not os.path.exists(d + '/cache'):
                shutil.copytree(V + '/.cache', d + '/cache', ignore=shutil.ignore_patterns('trees', 'lock'))
            open(d + '/repo/' + f, 'w').write(text)
            env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_CACHE=d + '/cache', VERIF_EVID=d + '/evid', PYTHONDONTWRITEBYTECODE='1')
            checks = next(c for g, c in MAP if fnmatch.fnmatch(f, g)).split()
            verdict, why = 'SURVIVED', ''
            for c in checks:
                try:
                    p = subprocess.run(['/opt/venv/bin/python', V + '/pbt/run.py', c, '--tier', 'quick', '--scale', args.scale], env=env, capture_output=True, text=True,
                                       timeout=1500)
                except subprocess.TimeoutExpired:
                    verdict = 'TIMEOUT ' + c
                    break
                if p.returncode == 1:
                    verdict = 'caught ' + c
                    why = [l for l in p.stdout.split('\n') if l.startswith('  ')][:1]
                    break
                if p.returncode != 0:
                    verdict = 'ERROR ' + c
                    why = p.stdout[-600:] + p.stderr[-300:]
                    if 'failed:' in why or 'rror compiling' in p.stdout + p.stderr or 'Cython' in p.stdout:
                        verdict, why = 'no build', ''
                    break
            with lock:
                rec = dict(file=f, line=k, old=old, new=new, verdict=verdict, why=why)
                with open(W + '/all.jsonl', 'a') as o:
                    o.write(json.dumps(rec) + '\n')
                if not verdict.startswith(('caught', 'no build')):
                    with open(W + '/survivors.jsonl', 'a') as o:
                        o.write(json.dumps(rec) + '\n')
                    print('%s:%d\n   %s\n   %s\n   %s %s' % (f, k, old, new, verdict, why), flush=True)
    ts = [threading.Thread(target=loop, args=(w,)) for w in range(args.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    sys.exit(main())
