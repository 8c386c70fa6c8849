"""C25: source code printed from symbolic matrices"""
import glob
import math
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from core import HarnessError, Relation
from checks.common import fail, num

RULE = 'a matrix with two or more entries that are not zero, or a text with a power'
ASSUMPTIONS = ['the printed code is evaluated as Python, which it is apart from the C declarations and comments',
               'sympy is taken from the tools of the sandbox when the environment of the repository lacks it']

# names of which some end or begin like others
NAMES = ('x', 'y', 'kx', 'xy', 'a', 'xa', 'r', 'bay', 'x1', 'x11', 'A11')
VALS = {n: .3 + .17 * i for i, n in enumerate(NAMES)}
POWS = (1, 2, 3, 4, 10, 12, 21, -1, -2, .5, 1.5, 2.5)
FN = dict(sin=math.sin, cos=math.cos, sqrt=math.sqrt, pi=math.pi, pow=pow)


def tools():
    try:
        import sympy  # noqa: F401
    except ImportError:
        for p in ('sympy', 'mpmath'):
            w = sorted(glob.glob('/opt/veriftools/wheels/%s-*-none-any.whl' % p))
            if not w:
                raise HarnessError('sympy is not available')
            sys.path.append(w[-1])
    from panels.dev import matrixtools
    return matrixtools


def expr(e):
    """e: list of terms, a term is [coefficient, [[name, power index], ...], function or '']"""
    import sympy as sp
    tot = sp.Integer(0)
    for k, fac, fn in e:
        t = sp.Integer(1)
        for n, p in fac:
            q = POWS[p % len(POWS)]
            t *= sp.Symbol(n, positive=True)**(sp.Integer(q) if isinstance(q, int) else sp.Float(q) if q != .5 else sp.Rational(1, 2))
        if fn:
            t = getattr(sp, fn)(t)**2 if fac else t
        tot += (sp.Integer(k) if k == int(k) else sp.Float(k)) * t
    return tot


def value(e):
    """The same without sympy"""
    tot, mag = 0., 0.
    for k, fac, fn in e:
        t = 1.
        for n, p in fac:
            t *= VALS[n]**POWS[p % len(POWS)]
        m = abs(t)
        if fn and fac:
            t, m = FN[fn](t)**2, 1 + m
        tot += k * t
        mag += abs(k) * m
    return tot, mag


def same(got, e, what):
    v, mag = value(e)
    if not abs(got - v) <= 1e-11 * max(mag, 1e-300):
        fail('%s evaluates to %r instead of %r' % (what, got, v))


def build(case):
    import sympy as sp
    R, C = case['shape']
    E = [[case['entries'][(i * C + j) % len(case['entries'])] if (case['mask'] >> (i * C + j)) & 1 else [] for j in range(C)] for i in range(R)]
    if case['sym']:
        R = C = min(R, C)
        E = [[E[min(i, j)][max(i, j)] for j in range(C)] for i in range(R)]
    M = sp.Matrix([[expr(e) for e in row] for row in E])
    # entries that cancel are not entries
    E = [[e if M[i, j] != 0 else [] for j, e in enumerate(row)] for i, row in enumerate(E)]
    return M, E, R, C


def scratch(f):
    """Runs f() in a scratch directory; returns its result and the files written"""
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix='c25-')
    os.chdir(tmp)
    try:
        out = f()
        return out, {n: open(os.path.join(tmp, n)).read() for n in sorted(os.listdir(tmp))}
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def written(case, out, files, name):
    if not case['file']:
        if files:
            fail('files written: %r' % sorted(files))
    elif files != {'print_%s.txt' % name: out}:
        fail('files written: %r instead of print_%s.txt with the text' % (sorted(files), name))


def evaluate(text, env):
    """Lines `target op expression`, with collected terms on comment-marked lines, as Python"""
    lines = []
    for ln in text.splitlines():
        if not ln.strip() or ln.lstrip().startswith('#') or ln.strip() == 'subs' or ln.startswith('cdef '):
            continue
        if ln.startswith('    '):
            lines[-1] += ('' if lines[-1].endswith('=') else '+') + '(' + ln.strip() + ')'
        else:
            lines.append(ln)
    for ln in lines:
        exec(ln, env)


def env(**kw):
    d = dict(VALS)
    d.update(FN)
    d.update(kw)
    return d


class Store(dict):
    def __missing__(self, k):
        return 0.


def sparse(case):
    T = tools()
    import sympy as sp
    M, E, R, C = build(case)
    keep = M.copy()
    suf = case['suffix']
    kw = dict(header=case['header'], print_file=case['file'], pow_by_mul=case['mul'], full_symmetric=case['sym'])
    if case['subs']:
        kw['subs'] = {sp.sin(sp.Symbol('x', positive=True)): sp.Symbol('sinx'), sp.Symbol('kx', positive=True)**2: sp.Symbol('kx2')}
    if case['collect']:
        kw['collect_for'] = [sp.Symbol(n, positive=True) for n in case['collect']]
    out, files = scratch(lambda: T.mprint_as_sparse(M, 'kX', suf, **kw))
    name = 'kX' + ('_' + suf if suf else '')
    written(case, out, files, name)
    if M != keep:
        fail('the matrix was changed')
    if case['header'] and case['header'] not in out.splitlines():
        fail('header not printed')
    rows, cols, vals = Store(), Store(), Store()
    g = env(c=-1, row=100, col=200, kXr=rows, kXc=cols, kXv=vals)
    evaluate(out, g)
    want = [(i, j) for i in range(R) for j in range(C) if E[i][j] and not (case['sym'] and i > j)]
    if g['c'] + 1 != len(want) or '# %s_num=%d' % (name, len(want)) not in out.splitlines():
        fail('%d entries printed, %d expected' % (g['c'] + 1, len(want)))
    roff = 0 if case['sym'] or suf and suf[0] == '0' else 100
    coff = 0 if case['sym'] or suf and suf[1] == '0' else 200
    got = {(rows[k] - roff, cols[k] - coff): vals[k] for k in range(len(want))}
    if sorted(got) != want:
        fail('printed positions %r, expected %r' % (sorted(got), want))
    for i, j in want:
        same(got[i, j], E[i][j], 'entry %d, %d of the printed code' % (i, j))
    return len(want) > 1, ['collect'] * bool(case['collect']) + ['subs'] * case['subs'] + ['symmetric'] * case['sym']


def array(case):
    T = tools()
    import sympy as sp
    M, E, R, C = build(case)
    keep = M.copy()
    kw = dict(header=case['header'], print_file=case['file'], pow_by_mul=case['mul'], order=case['order'], op=case['op'], use_cse=case['cse'])
    if case['collect'] and not case['cse']:
        kw['collect_for'] = [sp.Symbol(n, positive=True) for n in case['collect']]
    op = '+=' if 'collect_for' in kw else case['op']
    out, files = scratch(lambda: T.mprint_as_array(M, 'kX', '11', **kw))
    written(case, out, files, 'kX_11')
    if M != keep:
        fail('the matrix was changed')
    A = Store()
    evaluate(out, env(pos=1000, kX=A))
    sg = -1. if op == '-=' else 1.
    want = {(i * C + j if case['order'] == 'C' else j * R + i): E[i][j] for i in range(R) for j in range(C) if E[i][j]}
    if sorted(A) != sorted(1000 + k for k in want):
        fail('printed positions %r, expected %r' % (sorted(k - 1000 for k in A), sorted(want)))
    if '# kX_11_num=%d' % len(want) not in out.splitlines():
        fail('number of entries not printed')
    if case['cse']:
        decl = [n.strip() for ln in out.splitlines() if ln.startswith('cdef double ') for n in ln[len('cdef double '):].split(',')]
        used = [ln.split(' = ')[0] for ln in out.splitlines() if ' = ' in ln and not ln.startswith('kX[')]
        if sorted(decl) != sorted(used):
            fail('declared names %r, used %r' % (decl, used))
    for k, e in want.items():
        same(sg * A[1000 + k], e, 'entry at %d of the printed code' % k)
    return len(want) > 1, ['cse'] * case['cse'] + [case['order']] + ['collect'] * ('collect_for' in kw)


def text(case):
    """Any arithmetic expression: the same value, and no power of a name left"""
    T = tools()
    s = ''
    for k, (op, n, p, how) in enumerate(case['parts']):
        q = p if how != 'frac' else p + .5
        if how == 'pow':
            t = 'pow(%s,%s%d)' % (n, ' ' * (p % 2), p)
        elif how == 'name':
            t = '%s**%s' % (n, case['parts'][0][1])
        elif how == 'paren':
            t = '(%s + 1)**%d' % (n, p)
        else:
            t = '%s**%s' % (n, q)
        s += (' %s ' % op if k else '') + t
    out = T.pow2mult(s)
    g = env()
    a, b = eval(s, dict(g)), eval(out, dict(g))
    scale = eval(s.replace(' - ', ' + '), dict(g))
    if not abs(a - b) <= 1e-11 * abs(scale):
        fail('%r becomes %r: %r instead of %r' % (s, out, b, a))
    hows = [h for _, _, _, h in case['parts']]
    if set(hows) <= {'int', 'pow'} and ('**' in out or 'pow' in out):
        fail('%r becomes %r, in which powers are left' % (s, out))
    return True, sorted(set(hows))


nm = st.sampled_from(NAMES)
FAC = st.lists(st.tuples(nm, st.integers(0, len(POWS) - 1)).map(list), max_size=3)
TERM = st.tuples(st.one_of(st.integers(-9, 9).filter(bool), num(.5, 3, 2)), FAC, st.sampled_from(['', '', '', 'sin', 'cos'])).map(list)
ENTRY = st.lists(TERM, min_size=1, max_size=3)
MAT = dict(shape=st.tuples(st.integers(1, 3), st.integers(1, 4)).map(list), entries=st.lists(ENTRY, min_size=1, max_size=6), mask=st.integers(1, 2**12 - 1),
           header=st.sampled_from([None, '# note']), file=st.booleans(), mul=st.booleans(), collect=st.one_of(st.just([]), st.just([]), st.lists(nm, min_size=1, max_size=2, unique=True)))
PART = st.tuples(st.sampled_from(['+', '-', '*', '/']), nm, st.integers(1, 22), st.sampled_from(['int', 'int', 'int', 'pow', 'frac', 'name', 'paren'])).map(list)

RELATIONS = [
    Relation('sparse', st.fixed_dictionaries(dict(MAT, sym=st.booleans(), suffix=st.sampled_from(['', '11', '01', '10', '00']), subs=st.booleans())), sparse, 250, 4000, 8),
    Relation('array', st.fixed_dictionaries(dict(MAT, sym=st.just(False), cse=st.booleans(), order=st.sampled_from('CF'), op=st.sampled_from(['+=', '-=', '=']))), array, 250, 4000, 8),
    Relation('text', st.fixed_dictionaries(dict(parts=st.lists(PART, min_size=1, max_size=6))), text, 500, 8000, 4),
    # enough repeated terms for several groups of declared names
    Relation('repeated', st.fixed_dictionaries(dict(
        shape=st.tuples(st.integers(4, 6), st.integers(6, 8)).map(list),
        entries=st.lists(st.lists(st.tuples(st.integers(1, 9), st.lists(st.tuples(nm, st.integers(0, len(POWS) - 1)).map(list), min_size=2, max_size=3), st.just('')).map(list),
                                  min_size=2, max_size=3), min_size=8, max_size=20), mask=st.just(2**48 - 1), header=st.none(), file=st.booleans(), mul=st.booleans(),
        collect=st.just([]), sym=st.just(False), cse=st.just(True), order=st.sampled_from('CF'), op=st.sampled_from(['+=', '-=', '=']))), array, 60, 800, 6),
]
