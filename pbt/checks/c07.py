"""C07: internal forces and tangent stiffness"""
import numpy as np
from hypothesis import strategies as st

import ref
from checks.common import (large, PLATE, blockclose, close, dense, embed_ok, grown, expand, fail, field, is_known, mkabd, mkdomain, mkshell,
                           num, shells, symcheck, vec, wave, with_)
from core import Probe, Relation, Violation

RULE = 'the displacement state has a nonzero rotation somewhere, so that the non-linear terms act'
ASSUMPTIONS = ['reference: von Karman strain energy with the same integration points',
               'recorded finding: the non-linear shear strain has a factor of 2 too many; results for exactly that factor '
               'are accepted, any other difference is a violation']

KEY = 'doubled-nonlinear-shear'


def vclose(f, g, tol, what):
    """Vectors over u, v, w dofs: each component has its own scale"""
    f, g = np.asarray(f), np.asarray(g)
    if f.shape != g.shape:
        fail('%s: shape %s, expected %s' % (what, f.shape, g.shape))
    for k in range(3):
        s = np.abs(g[k::3]).max(initial=0.)
        s = max(s, 1e-6 * np.abs(g).max(initial=0.))
        close(f[k::3], g[k::3], tol, what + ' (%s)' % 'uvw'[k], scale=s or 1.)


def either(what, test):
    """The property (factor 1), or the recorded finding (factor 2)"""
    try:
        test(1.)
    except Violation:
        if not is_known('C07', KEY):
            raise
        try:
            test(2.)
        except Violation:
            pass
        else:
            return 2.
        raise
    return 1.


def setup(case):
    s = mkshell(case)
    size = s.m * s.n * 3
    c = expand(case['c'], size, min(case['a'], case['b']) * case['amp'])
    nx, ny = case['pts']
    fld = field(case, nx, ny) if case['var'] else None
    kw = dict(nx=nx, ny=ny)
    if fld is not None:
        kw['ABDnxny'] = fld
    return s, c, nx, ny, fld, kw


def label(case):
    return [case['model'][:5], 'variable' if case['var'] else 'constant']


def active(case, c):
    return bool(np.abs(c[2::3]).max() > 0 and any(case['flags'][4::6] + case['flags'][5::6]))


def forces(case):
    s, c, nx, ny, fld, kw = setup(case)
    f = s.calc_fint(c, **kw)
    F = mkabd(case)
    either('fint', lambda sf: vclose(f, mkdomain(case, sf).fint(F, c, nx, ny, field=fld), 1e-8, 'internal forces'))
    off = case['before']
    big = np.full(c.size + off + 2, 3.3)
    big[off:off + c.size] = c
    g = s.calc_fint(big, size=grown(big.size, c.size), col0=off, **kw)
    if np.abs(np.delete(g, np.arange(off, off + c.size))).max(initial=0.) > 0:
        fail('internal forces outside of the requested range')
    vclose(g[off:off + c.size], f, 1e-12, 'internal forces placed at an offset')
    return active(case, c), label(case)


def tangent(case):
    """kT from kC and kG against the reference, symmetric"""
    s, c, nx, ny, fld, kw = setup(case)
    F = mkabd(case)
    K, G, T = s.calc_kC(c=c, NLgeom=True, **kw), s.calc_kG(c=c, NLgeom=True, **kw), s.calc_kT(c=c, **kw)
    for A, nm in ((K, 'kC'), (G, 'kG'), (T, 'kT')):
        symcheck(A, nm)
    blockclose(dense(K) + dense(G), T, 1e-12, 'kC + kG against kT')

    def test(sf):
        dom = mkdomain(case, sf)
        blockclose(K, dom.kC(F, c, True, nx, ny, field=fld), 1e-8, 'non-linear kC')
        blockclose(G, dom.kG((0, 0, 0), F, c, True, nx, ny, field=fld), 1e-8, 'non-linear kG')
    either('kT', test)
    off = case['before']
    big = np.full(c.size + off + 2, 3.3)
    big[off:off + c.size] = c
    embed_ok(s.calc_kT(size=grown(big.size, c.size), row0=off, col0=off, c=big, **kw), off, off, dense(T), big.size, 'kT')
    return active(case, c), label(case)


def consistent(case):
    """kT is the derivative of the internal forces, which are cubic in c: the differences below are exact"""
    s, c, nx, ny, fld, kw = setup(case)
    d = expand(case['d'], c.size, min(case['a'], case['b']) * case['amp'])
    T = dense(s.calc_kT(c=c, **kw))
    f = {k: s.calc_fint(c + k * d, **kw) for k in (-2, -1, 1, 2)}
    fd = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / 12
    S = np.abs(T) @ np.abs(d) + np.abs(f[2]) + np.abs(f[-2]) + np.abs(f[1])

    def test(sf):
        g = T @ d if sf == 1 else T @ d + mkdomain(case).excess(mkabd(case), c, nx, ny, fld, d)
        for k in range(3):
            close(g[k::3], fd[k::3], 1e-9, 'kT.d against the change of the internal forces (%s)' % 'uvw'[k],
                  scale=S[k::3].max() or 1.)
    either('kT', test)
    return active(case, c), label(case)


def work(case):
    """The work of the internal forces between states is path independent (they derive from an energy)"""
    s, c, nx, ny, fld, kw = setup(case)
    n = c.size
    amp = min(case['a'], case['b']) * case['amp']
    p, q = expand(case['d'], n, amp), expand(case['d'][::-1] + [3.], n, amp)
    g, w = ref.gauss(4)                 # exact: the forces are cubic along a straight path
    dom, F = mkdomain(case), mkabd(case)
    raw = {}

    def along(x0, x1, sf):
        t = 0.
        for k in range(4):
            x = x0 + (g[k] + 1) / 2 * (x1 - x0)
            key = x.tobytes()
            if key not in raw:
                raw[key] = s.calc_fint(x, **kw)
            f = raw[key] if sf == 1 else raw[key] - dom.excess(F, x, nx, ny, fld)
            t += w[k] / 2 * f @ (x1 - x0)
        return t
    scale = max(np.abs(s.calc_fint(x, **kw)) @ np.abs(x) for x in (c, p, q))

    def test(sf):
        W = [along(c, p, sf), along(p, q, sf), along(q, c, sf)]
        if not abs(sum(W)) <= 1e-9 * (sum(map(abs, W)) + scale):
            fail('work around a closed path: %r, single paths %r' % (sum(W), W))
    either('fint', test)
    return active(case, c), label(case)


def small(case):
    """For small displacements the internal forces are kC.c"""
    s, c, nx, ny, fld, kw = setup(case)
    e = 1e-6
    odd = [(s.calc_fint(t * e * c, **kw) - s.calc_fint(-t * e * c, **kw)) / 2 for t in (1, 2)]
    lin = (8 * odd[0] - odd[1]) / (6 * e)          # the forces are of third order: no other terms are left
    nl = s.calc_fint(c, **kw)
    K = dense(s.calc_kC(ABDnxny=kw.get('ABDnxny'), c=c, nx=nx, ny=ny))
    S = np.abs(K) @ np.abs(c) + 1e-9 * np.abs(nl)
    for k in range(3):
        close(lin[k::3], (K @ c)[k::3], 1e-7, 'internal forces of small displacements (%s)' % 'uvw'[k], scale=S[k::3].max() or 1.)
    z = s.calc_fint(np.zeros(c.size), **kw)
    if np.abs(z).max() > 0:
        fail('internal forces without displacements')
    return active(case, c), label(case)


def shear_probe():
    case = dict(model=PLATE, a=1., b=1., r=1., mn=[3, 3], plies=[[0., 1., 0, 1.]], thick=1e-2, uniform=True, offset=0.,
                flags=[1.] * 24)
    s = mkshell(case)
    c = np.zeros(27)
    c[2::3] = expand([3., -1., 4.], 9, .1)
    f = s.calc_fint(c, nx=8, ny=8)
    F = mkabd(case)
    if np.abs(f - mkdomain(case, 1.).fint(F, c, 8, 8)).max() <= 1e-8 * np.abs(f).max():
        return None
    return 'internal forces, tangent stiffness and strains use 2 w,x w,y as the non-linear shear strain'


S4 = with_(shells(hi=4), c=vec(0), d=vec(0), amp=st.sampled_from([.02, .3, 1.]), var=st.booleans(), wave=wave,
           pts=st.tuples(st.integers(2, 8), st.integers(2, 8)).map(list), before=st.integers(0, 2).map(lambda k: 3 * k))
ALSO = [('c12', 'state', 60, 1000)]
RELATIONS = [
    Relation('forces', S4, forces, 200, 3000, 8),
    Relation('tangent', S4, tangent, 150, 2500, 8),
    Relation('consistent', S4, consistent, 200, 3000, 8),
    Relation('work', S4, work, 150, 2500, 8),
    Relation('small', S4, small, 150, 2000, 4),
    large('forces', S4, forces),
    large('tangent', S4, tangent),
]
PROBES = [Probe(KEY, shear_probe)]
