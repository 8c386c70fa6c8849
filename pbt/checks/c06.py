"""C06: mass matrix"""
import numpy as np
from hypothesis import strategies as st

import ref
from checks.common import (large, FLAGS, blockclose, dense, embed_ok, grown, fail, laminate, mkdomain, mkshell, num, shells, symcheck, wave,
                           with_)
from core import Relation, Violation

RULE = 'the reference matrix is not zero'
ASSUMPTIONS = ['for laminates with different densities the rotary inertia may use the average density, as documented']


def moments(case):
    stack, plyts, props, rhos, h, off = laminate(case)
    avg = sum(t * r for t, r in zip(plyts, rhos)) / h
    return ref.rho_moments(plyts, [avg] * len(plyts), off), ref.rho_moments(plyts, rhos, off)


def label(case):
    return [case['model'][:5], 'offset' if case['offset'] else 'centred', 'mixed' if not case['uniform'] else 'uniform']


def closed(case):
    s = mkshell(case)
    K = s.calc_kM()
    dom = mkdomain(case)
    A, B = moments(case)
    K0 = dom.kM(*A)
    symcheck(K, 'kM')
    try:
        blockclose(K, K0, 1e-8, 'kM')
    except Violation:
        try:
            blockclose(K, dom.kM(*B), 1e-8, 'kM')
        except Violation:
            pass
        else:
            return True, label(case)
        raise
    d = dense(K)
    off = case['before']
    embed_ok(s.calc_kM(size=grown(d.shape[0] + off + 4, d.shape[0]), row0=off, col0=off), off, off, d, d.shape[0] + off + 4, 'kM')
    # the integrated form of the same laminate
    h = laminate(case)[4]
    nx, ny = s.nx, s.ny
    blockclose(s.calc_kM(h_nxny=np.full((nx, ny), h), nx=nx, ny=ny), K0, 1e-8, 'integrated kM')
    return bool(np.abs(K0).max() > 0), label(case)


def variable(case):
    s = mkshell(case)
    nx, ny = case['pts']
    h0, off = laminate(case)[4:6]
    rho0 = laminate(case)[3][0]
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    k = case['wave']
    h = h0 * (1.5 + np.sin(1. + k[0] * i + k[1] * j))
    rho = rho0 * (1.5 + np.cos(.3 + k[1] * i - k[0] * j))
    fld = np.zeros((nx, ny, 3))
    fld[..., 0] = rho * h
    fld[..., 1] = rho * h * off
    fld[..., 2] = rho * h * (off**2 + h**2 / 12)
    K0 = mkdomain(case).kM(0, 0, 0, nx, ny, field=fld)
    K = s.calc_kM(h_nxny=h, rho_nxny=rho, nx=nx, ny=ny)
    symcheck(K, 'kM with variable thickness')
    blockclose(K, K0, 1e-8, 'kM with variable thickness')
    off = case['before']
    d = dense(K)
    embed_ok(s.calc_kM(size=grown(d.shape[0] + off + 4, d.shape[0]), row0=off, col0=off, h_nxny=h, rho_nxny=rho, nx=nx, ny=ny),
             off, off, d, d.shape[0] + off + 4, 'kM with variable thickness')
    return bool(np.abs(K0).max() > 0), label(case)


def total(case):
    """Rigid translations of an unsupported domain carry its total mass; kM is positive semi-definite"""
    s = mkshell(case, **{k: 1. for k in FLAGS})
    if s.m < 3 or s.n < 3:
        return False
    K = dense(s.calc_kM())
    stack, plyts, props, rhos, h, off = laminate(case)
    mass = sum(t * r for t, r in zip(plyts, rhos)) * s.a * s.b
    fx, fy = np.zeros(s.m), np.zeros(s.n)
    fx[[0, 2]] = 1
    fy[[0, 2]] = 1
    for d in range(3):
        c = np.zeros(K.shape[0])
        c[d::3] = np.outer(fy, fx).ravel()
        got = c @ K @ c
        if not abs(got - mass) <= 1e-9 * mass:
            fail('kinetic energy of a unit translation along %s is that of a mass %r, expected %r' % ('uvw'[d], got, mass))
    d = np.sqrt(np.abs(np.diag(K)))
    ev = np.linalg.eigvalsh(K / np.outer(d, d))
    if ev.min() < -1e-9:
        fail('kM has a negative eigenvalue (%g after scaling by the diagonal)' % ev.min())
    return True, label(case)


def scaling(case):
    """kM is proportional to the density"""
    s, t = mkshell(case), case['t']
    K = dense(s.calc_kM())
    s2 = mkshell(case)
    s2.rhos = [r * t for r in s.rhos]
    blockclose(s2.calc_kM(), t * K, 1e-12, 'kM of a laminate %g times as dense' % t)
    one = mkshell(case)
    one.rhos = None
    one.rho = 7.
    blockclose(one.calc_kM(), mkdomain(case).kM(*ref.rho_moments(one.plyts, [7.] * len(one.plyts), one.offset)), 1e-8,
               'kM of a laminate with one density')
    return bool(np.abs(K).max() > 0), label(case)


OFF = st.integers(0, 3).map(lambda k: 3 * k)
ALSO = [('c12', 'linear', 60, 1000), ('c19', 'matrices', 60, 1000)]
RELATIONS = [
    Relation('closed', with_(shells(long=10), before=OFF), closed, 250, 4000, 8),
    Relation('variable', with_(shells(hi=4), wave=wave, before=OFF,
                               pts=st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)), variable, 200, 3000, 8),
    Relation('total', shells(lo=3, hi=5), total, 200, 3000, 4),
    Relation('scaling', with_(shells(hi=4), t=num(0.1, 9, 2)), scaling, 150, 2000, 4),
    large('closed', with_(shells(), before=OFF), closed),
    large('variable', with_(shells(hi=4), wave=wave, before=OFF, pts=st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)), variable),
]
