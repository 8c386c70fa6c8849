"""C10: displacement, strain and stress recovery"""
import numpy as np
from hypothesis import strategies as st

from checks.common import (large, FLAGS, PLATE, close, dense, expand, fail, is_known, laminate, mkabd, mkdomain, mkshell, num, ref,
                           shells, vec, with_)
from core import Probe, Relation, Violation

RULE = 'the displacement state is not zero at some point of the grid'
ASSUMPTIONS = ['recorded finding: the non-linear part of gxy is twice w,x w,y; exactly that is accepted, nothing else']
KEY = 'doubled-nonlinear-shear'
FIELDS = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
pos = st.one_of(st.sampled_from([0., 1., .5]), num(0, 1, 3))


def start(case):
    s = mkshell(case)
    s.calc_kC()
    s.out_num_cores = case['cores']
    c = expand(case['c'], s.get_size(), min(s.a, s.b) * .2)
    return s, c, mkdomain(case)


def grid(s, case):
    """(kwargs, xs, ys): the default grid, or points given in a shape of choice"""
    if case['grid'] is not None:
        gx, gy = case['grid']
        xs, ys = np.meshgrid(np.linspace(0, s.a, gx), np.linspace(0, s.b, gy))
        return dict(gridx=gx, gridy=gy), xs, ys
    P = np.array(case['points'], dtype=float)
    xs, ys = P[:, 0] * s.a, P[:, 1] * s.b
    if case['shape'] == 2 and len(P) % 2 == 0:
        xs, ys = xs.reshape(2, -1), ys.reshape(2, -1)
        return dict(xs=xs, ys=ys), xs, ys
    if case['shape'] in (4, 5) and len(P) % 2 == 0:      # stored by columns: both, or one of the two
        xs, ys = xs.reshape(2, -1).T, ys.reshape(2, -1).T
        if case['shape'] == 5:
            ys = np.ascontiguousarray(ys)
        return dict(xs=xs, ys=ys), xs, ys
    if case['shape'] in (4, 5):                          # every second entry of an array
        xs, ys = np.repeat(xs, 2)[::2], np.repeat(ys, 2)[1::2]
    if case['shape'] == 1:
        return dict(xs=list(xs), ys=list(ys)), xs, ys
    if case['shape'] == 3 and len(P) == 1:
        return dict(xs=float(xs[0]), ys=float(ys[0])), xs, ys
    return dict(xs=xs, ys=ys), xs, ys


def label(case):
    return ['grid' if case['grid'] is not None else 'points', 'cores%d' % case['cores']]


def same(got, exp, tol, what, scale):
    if got.shape != exp.shape:
        fail('%s: shape %s, expected %s' % (what, got.shape, exp.shape))
    close(got, exp, tol, what, scale=scale or 1.)


def scales(dom, c):
    """Sizes of the fields, for tolerances: sums of magnitudes at a few points"""
    ac = np.abs(c)
    out = {}
    for x in np.linspace(0, dom.a, 5):
        for y in np.linspace(0, dom.b, 5):
            o = dom.ops(x, y)
            for k, v in o.items():
                out[k] = max(out.get(k, 0.), float(np.abs(v) @ ac))
    return out


def displacements(case):
    s, c, dom = start(case)
    kw, xs, ys = grid(s, case)
    mesh, f = s.uvw(c, **kw)
    S = scales(dom, c)
    same(mesh['Xs'], xs, 1e-14, 'x coordinates', s.a)
    same(mesh['Ys'], ys, 1e-14, 'y coordinates', s.b)
    e = {k: np.zeros(xs.shape) for k in ('u', 'v', 'w', 'phix', 'phiy')}
    for i in np.ndindex(xs.shape):
        x, y = xs[i], ys[i]
        for k in 'uvw':
            e[k][i] = dom.op(k, x, y) @ c
        e['phix'][i] = -dom.op('w', x, y, 1, 0) @ c
        e['phiy'][i] = -dom.op('w', x, y, 0, 1) @ c
    for k in e:
        sc = max(S[{'phix': 'wx', 'phiy': 'wy'}.get(k, k)], 1e-6)
        same(f[k], e[k], 1e-10, k, sc)
        if s.fields[k] is not f[k] and np.abs(s.fields[k] - f[k]).max() > 0:
            fail('stored field %s differs from the returned one' % k)
    return max(np.abs(e[k]).max() for k in e) > 0, label(case)


def strains(case):
    s, c, dom = start(case)
    kw, xs, ys = grid(s, case)
    NL = case['NL']
    mesh, f = s.strain(c, NLgeom=NL, **kw)
    f = {k: f[k].copy() for k in FIELDS}
    e = np.zeros(xs.shape + (6,))
    wxwy = np.zeros(xs.shape)
    for i in np.ndindex(xs.shape):
        e[i] = dom.strain(c, xs[i], ys[i], NL)
        wxwy[i] = (dom.op('w', xs[i], ys[i], 1, 0) @ c) * (dom.op('w', xs[i], ys[i], 0, 1) @ c)
    S = scales(dom, c)
    sc = [S['ux'] + S['wx']**2, S['vy'] + S['wy']**2 + (S['w'] / dom.r if dom.r else 0.), S['uy'] + S['vx'] + S['wx'] * S['wy'],
          S['wxx'], S['wyy'], S['wxy']]
    factor = 1.
    for k, nm in enumerate(FIELDS):
        try:
            same(f[nm], e[..., k], 1e-10, nm, max(sc[k], 1e-6))
        except Violation:
            if not (nm == 'gxy' and NL and is_known('C10', KEY)):
                raise
            try:
                same(f[nm], e[..., k] + wxwy, 1e-10, nm, max(sc[k], 1e-6))
            except Violation:
                pass
            else:
                factor = 2.
                continue
            raise
    # stresses: the laminate stiffness times the strains
    F = mkabd(case) if case['own'] else None
    if case['own']:
        stack, plyts, props, rhos, h, off = laminate(case)
        F = ref.abd([t + 20. for t in stack], plyts, props, off)
    mesh, g = s.stress(c, ABD=F, NLgeom=NL, **kw)
    F = s.ABD if F is None else F
    E = np.stack([f[k] for k in FIELDS], axis=-1)
    N = E @ F.T
    M = np.abs(E) @ np.abs(F).T
    for k, nm in enumerate(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')):
        same(g[nm], N[..., k], 1e-11, nm, M[..., k].max())
    return bool(np.abs(e).max() > 0), label(case) + ['NL' if NL else 'linear', 'factor%g' % factor]


def cores(case):
    """The result does not depend on the number of threads, nor on how the points are grouped"""
    s, c, dom = start(case)
    P = np.array(case['points'], dtype=float)
    xs, ys = P[:, 0] * s.a, P[:, 1] * s.b
    keys = ('u', 'v', 'w', 'phix', 'phiy')
    s.out_num_cores = 1
    base = {k: v.copy() for k, v in s.uvw(c, xs=xs, ys=ys)[1].items() if k in keys}
    base.update({k: v.copy() for k, v in s.strain(c, xs=xs, ys=ys, NLgeom=case['NL'])[1].items() if k in FIELDS})
    s.out_num_cores = case['cores']
    o = {k: v.copy() for k, v in s.uvw(c, xs=xs, ys=ys)[1].items() if k in keys}
    o.update({k: v.copy() for k, v in s.strain(c, xs=xs, ys=ys, NLgeom=case['NL'])[1].items() if k in FIELDS})
    s.out_num_cores = 2
    for k in base:
        if base[k].shape != o[k].shape or np.abs(base[k] - o[k]).max() > 1e-12 * max(np.abs(base[k]).max(), 1e-300):
            fail('%s depends on the number of threads (%d)' % (k, case['cores']))
    for i in range(len(P)):
        one = s.uvw(c, xs=xs[i:i + 1], ys=ys[i:i + 1])[1]
        for k in keys:
            if abs(one[k][0] - base[k][i]) > 1e-12 * max(np.abs(base[k]).max(), 1e-300):
                fail('%s at one point differs from the same point among others' % k)
    return max(np.abs(v).max() for v in base.values()) > 0, ['cores%d' % case['cores'], 'points%d' % min(len(P), 9)]


def energy(case):
    """c.kC.c equals the integral of the recovered stresses times the recovered strains"""
    s, c, dom = start(case)
    K = dense(s.calc_kC())
    nx, ny = s.m + 3, s.n + 3
    pts = list(dom.grid(nx, ny))
    xs, ys = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    w = np.array([p[2] for p in pts])
    e = {k: v.copy() for k, v in s.strain(c, xs=xs, ys=ys, NLgeom=False)[1].items() if k in FIELDS}
    g = s.stress(c, xs=xs, ys=ys, NLgeom=False)[1]
    U = sum((w * e[a] * g[b]).sum() for a, b in zip(FIELDS, ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')))
    V = c @ K @ c
    S = np.abs(c) @ np.abs(K) @ np.abs(c)
    if not abs(U - V) <= 1e-10 * S:
        fail('energy of the recovered fields %r, of the stiffness matrix %r' % (U, V))
    return bool(V > 0), [case['model'][:5]]


def shear_probe():
    case = dict(model=PLATE, a=1., b=1., r=1., mn=[3, 3], plies=[[0., 1., 0, 1.]], thick=1e-2, uniform=True, offset=0.,
                flags=[1.] * 24)
    s = mkshell(case)
    s.calc_kC()
    c = np.zeros(27)
    c[2::3] = expand([3., -1., 4.], 9, .1)
    g = s.strain(c, xs=np.array([.3]), ys=np.array([.7]))[1]['gxy'][0]
    d = mkdomain(case)
    e = (d.op('w', .3, .7, 1, 0) @ c) * (d.op('w', .3, .7, 0, 1) @ c)
    return None if abs(g - e) <= 1e-10 * abs(e) else 'gxy = %r, w,x w,y = %r' % (g, e)


GR = dict(c=vec(0), cores=st.sampled_from([1, 1, 2, 3, 4, 7]), NL=st.booleans(), own=st.booleans(),
          points=st.lists(st.tuples(pos, pos).map(list), min_size=1, max_size=7), shape=st.integers(0, 5),
          grid=st.one_of(st.none(), st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list)))
ALSO = [('c12', 'recovery', 80, 1500), ('c19', 'fields', 60, 1000)]
RELATIONS = [
    Relation('displacements', with_(shells(hi=6, long=15), **GR), displacements, 400, 6000, 8),
    Relation('strains', with_(shells(hi=6, long=12), **GR), strains, 400, 6000, 8),
    Relation('cores', with_(shells(hi=4), **dict(GR, points=st.lists(st.tuples(pos, pos).map(list), min_size=1, max_size=20))),
             cores, 200, 3000, 4),
    Relation('energy', with_(shells(hi=5), **GR), energy, 200, 3000, 4),
    large('displacements', with_(shells(), **GR), displacements),
    large('strains', with_(shells(), **GR), strains),
]
PROBES = [Probe(KEY, shear_probe)]
