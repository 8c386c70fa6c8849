"""C22: constraint of a point by springs"""
import numpy as np
from hypothesis import strategies as st

from checks.c20 import base, modes
from checks.common import large, close, dense, expand, fail, mkdomain, mkshell, num, vec, with_
import core
from core import Relation

RULE = 'the matrix of the springs is not zero'
ASSUMPTIONS = ['phix = -dw/dx and phiy = -dw/dy, as the fields of the package']

OPS = (('u', 0, 0, 1.), ('v', 0, 0, 1.), ('w', 0, 0, 1.), ('w', 1, 0, -1.), ('w', 0, 1, -1.))
NAMES = ('u', 'v', 'w', 'phix', 'phiy')


def rows(d, sp):
    """One row and one stiffness for each spring at the point"""
    out = []
    for k, (nm, (c, dx, dy, s)) in enumerate(zip(NAMES, OPS)):
        on = sp['dofs'][k]
        on = (k < 3) if on is None else on
        if on:
            kk = sp['kuvw'] if k < 3 else sp['kphi']
            out.append((s * d.op(c, sp['x'] * d.a, sp['y'] * d.b, dx, dy), kk if kk is not None else (1e6 if k < 3 else 1e5)))
    return out


def args(s, sp):
    kw = {n: bool(v) for n, v in zip(NAMES, sp['dofs']) if v is not None}
    if sp['kuvw'] is not None:
        kw['kuvw'] = sp['kuvw']
    if sp['kphi'] is not None:
        kw['kphi'] = sp['kphi']
    return s.calc_stiffness_point_constraint(sp['x'] * s.a, sp['y'] * s.b, **kw)


def matrix(d, sp):
    K = np.zeros((d.size, d.size))
    for r, k in rows(d, sp):
        K += k * np.outer(r, r)
    return K


def label(sp):
    return ['+'.join(n for n, v, k in zip(NAMES, sp['dofs'], range(5)) if v or (v is None and k < 3)) or 'none']


def close_uvw(A, B, what, K=None):
    """Each pair of displacement components on its own scale"""
    for i in range(3):
        for j in range(3):
            a, b = dense(A)[i::3, j::3], B[i::3, j::3]
            sc = np.sqrt(np.abs(B[i::3, i::3]).max() * np.abs(B[j::3, j::3]).max())
            if sc == 0:
                if np.abs(a).max() > (0 if core.SLACK == 1 else 1e-2):
                    fail('%s: a free direction %s%s is constrained' % (what, 'uvw'[i], 'uvw'[j]))
            else:
                if core.SLACK > 1:          # long series: a point on an edge only meets rounding
                    sc += 1e-7 * np.abs(B).max() + 1e3
                close(a, b, 1e-10, '%s (%s%s)' % (what, 'uvw'[i], 'uvw'[j]), scale=sc)


def energy(case):
    """Matrix, symmetry, sum of springs, and energy from the displacement at the point"""
    s, d = mkshell(case), mkdomain(case)
    if case['used']:
        s.calc_kC(silent=True)
        s.calc_fext(silent=True)
    tot, ref = 0., 0.
    for rep in range(2):
        for sp in case['springs']:
            A, E = args(s, sp), matrix(d, sp)
            if A.shape != (d.size, d.size):
                fail('shape %r, expected %r' % (A.shape, (d.size, d.size)))
            if not hasattr(A, 'toarray'):
                fail('%s instead of a sparse matrix' % type(A))
            close_uvw(A, E, 'springs at (%g, %g) of the domain' % (sp['x'], sp['y']))
            if rep == 0:
                tot, ref = tot + A, ref + E
    c = expand(case['c'], d.size)
    e = 0.
    for sp in case['springs']:
        fl = s.uvw(c, xs=np.array([sp['x'] * d.a]), ys=np.array([sp['y'] * d.b]))[1]
        for k, nm in enumerate(NAMES):
            on = sp['dofs'][k] if sp['dofs'][k] is not None else k < 3
            kk = (sp['kuvw'], 1e6) if k < 3 else (sp['kphi'], 1e5)
            kk = kk[1] if kk[0] is None else kk[0]
            e += on * kk * float(np.ravel(fl[nm])[0])**2 / 2
    close(np.array(c @ (tot @ c) / 2), np.array(e), 1e-9, 'energy of the springs', scale=e + (1e-300 if core.SLACK == 1 else 1e-2))
    # the definition of the domain changes: the springs follow
    for k, v in (('m', case['mn2'][0]), ('n', case['mn2'][1]), ('a', 1.3 * s.a), ('x1w', 1. - s.x1w), ('y2u', 1. - s.y2u), ('y1v', .5)):
        setattr(s, k, v)
    from checks.common import FLAGS
    d2 = mkdomain(dict(case, mn=case['mn2'], a=1.3 * case['a'], flags=[getattr(s, k) for k in FLAGS]))
    sp = case['springs'][0]
    close_uvw(args(s, sp), matrix(d2, sp), 'springs of a redefined domain')
    return np.abs(ref).max() > 0, label(sp)


def response(case):
    """Loaded model with springs: the displacement at the point is the free one divided by 1 + k flexibility"""
    case = dict(case, flags=[max(f, float(i % 2)) if case['soft'] else f for i, f in enumerate(case['flags'])])
    s, d = mkshell(case), mkdomain(case)
    sp = case['springs'][0]
    k = [i for i in range(5) if sp['dofs'][i]] or [2]
    sp = dict(sp, dofs=[i == k[0] for i in range(5)])
    ld = case['load']
    s.add_point_load(ld[0] * d.a, ld[1] * d.b, *ld[2:])
    K = dense(s.calc_kC(silent=True))
    M = dense(s.calc_kM(silent=True))
    K = K + M * np.trace(K) / np.trace(M) * 1e-3 if np.trace(M) > 0 else K     # no rigid motion left
    f = s.calc_fext(silent=True)
    act = np.flatnonzero(np.diag(K) > 0)
    g = rows(d, dict(sp, kuvw=1., kphi=1.))[0][0]
    if not act.size or np.abs(g).max() == 0:
        P = dense(args(s, sp))
        if np.abs(P).max() > 0:
            fail('a spring on a point that cannot move has stiffness')
        return False, ['fixed point']
    sc = 1 / np.sqrt(np.diag(K)[act])
    A = sc[:, None] * K[np.ix_(act, act)] * sc
    q = sc * np.linalg.solve(A, sc * g[act])
    free = q @ f[act]
    flex = q @ g[act]
    for h in (.1, 1., 30.):
        kk = h / flex
        P = dense(args(s, dict(sp, kuvw=kk, kphi=kk)))
        c = sc * np.linalg.solve(A + sc[:, None] * P[np.ix_(act, act)] * sc, sc * f[act])
        size = np.sqrt(max(flex * (f[act] @ (sc * np.linalg.solve(A, sc * f[act]))), 0)) + 1e-300
        close(np.array(g[act] @ c), np.array(free / (1 + h)), 1e-7, 'displacement at the point with a spring of %g / flexibility' % h, scale=size)
    return np.abs(f).max() > 0, [NAMES[k[0]]]


def stiffer(case):
    """Frequencies rise with the springs, between the free and the supported structure"""
    s = mkshell(case)
    K, M = dense(s.calc_kC(silent=True)), dense(s.calc_kM(silent=True))
    w0 = modes(K, M)
    P, rank = np.zeros_like(K), 0
    for sp in case['springs']:
        k = np.trace(K) / len(K) * 1e-3
        A = dense(args(s, dict(sp, kuvw=k, kphi=k * case['a']**2 * .1)))
        P, rank = P + A, rank + np.linalg.matrix_rank(A, tol=1e-12 * max(np.abs(A).max(), 1e-300))
    prev = w0
    for f in (.01, 1., 100.):
        w = modes(K + f * P, M)
        tol = 1e-11 * max(w.max(initial=0), w0.max(initial=0))
        if np.any(w < prev * (1 - 1e-7) - tol):
            fail('a stiffer spring lowers a frequency')
        if len(w) > rank and np.any(w[:len(w) - rank] > w0[rank:] * (1 + 1e-7) + tol):
            fail('%d springs move a mode past more than %d modes of the free structure' % (rank, rank))
        prev = w
    return rank > 0 and len(w0) > 0, ['rank %d' % rank]


tri = st.one_of(st.none(), st.booleans())
u01 = st.one_of(st.sampled_from([0., 1., .5]), num(0, 1, 3))
kv = st.one_of(st.none(), num(.1, 1e4, 1))
SPRING = st.fixed_dictionaries(dict(x=u01, y=u01, dofs=st.tuples(tri, tri, tri, tri, tri).map(list), kuvw=kv, kphi=kv))
SPRINGS = st.lists(SPRING, min_size=1, max_size=3)
v9 = num(-9, 9, 1)
CASE = with_(base(5), springs=SPRINGS)

RELATIONS = [
    Relation('energy', with_(CASE, c=vec(0), used=st.booleans(), mn2=st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list)), energy, 300, 8000, 8),
    Relation('response', with_(CASE, load=st.tuples(u01, u01, v9, v9, v9).map(list), soft=st.booleans()), response, 200, 5000, 8),
    Relation('stiffer', CASE, stiffer, 150, 4000, 8),
    large('energy', with_(CASE, c=vec(0), used=st.booleans(), mn2=st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list)), energy),
]
