"""C04: constitutive stiffness matrix of a shell domain"""
import numpy as np
from hypothesis import strategies as st

from checks.common import (large, FLAGS, blockclose, close, dense, embed_ok, expand, fail, field, mkabd, mkdomain, mkshell, num,
                           shells, symcheck, vec, with_)
from core import Relation

RULE = 'the reference matrix is not zero and at least one edge flag is nonzero'
ASSUMPTIONS = ['reference: quadrature of the Donnell strain energy with an independently computed ABD matrix',
               'series up to 5 x 5 terms, and up to 12 terms along one direction']


def nontrivial(case, K):
    return bool(np.abs(K).max() > 0 and any(case['flags']))


def label(case):
    return [case['model'][:5], 'offset' if case['offset'] else 'centred', 'mixed' if not case['uniform'] else 'uniform']


def analytic(case):
    s = mkshell(case)
    K = s.calc_kC()
    F = mkabd(case)
    close(s.ABD[:3, :3], F[:3, :3], 1e-9, 'A matrix')
    close(s.ABD[3:, 3:], F[3:, 3:], 1e-9, 'D matrix')
    close(s.ABD[:3, 3:], F[:3, 3:], 1e-9, 'B matrix', scale=np.sqrt(np.abs(F[:3, :3]).max() * np.abs(F[3:, 3:]).max()))
    K0 = mkdomain(case).kC(F)
    symcheck(K, 'kC')
    blockclose(K, K0, 1e-8, 'kC')
    if s.matrices['kC'] is None or np.abs(dense(s.matrices['kC']) - dense(K)).max() > 0:
        fail('the stored kC is not the returned one')
    return nontrivial(case, K0), label(case)


def numeric(case):
    """With a displacement state and no non-linearity the integrated matrix is the closed-form one"""
    s = mkshell(case)
    c = expand(case['c'], s.m * s.n * 3)
    K = s.calc_kC(c=c)
    K0 = mkdomain(case).kC(mkabd(case))
    symcheck(K, 'integrated kC')
    blockclose(K, K0, 1e-8, 'integrated kC')
    blockclose(K, s.calc_kC(), 1e-8, 'integrated versus closed-form kC')
    return nontrivial(case, K0), label(case)


def variable(case):
    s = mkshell(case)
    nx, ny = case['pts']
    F = field(case, nx, ny)
    K = s.calc_kC(ABDnxny=F, nx=nx, ny=ny)
    K0 = mkdomain(case).kC(None, nx=nx, ny=ny, field=F)
    symcheck(K, 'kC with variable stiffness')
    blockclose(K, K0, 1e-8, 'kC with variable stiffness', 'nx, ny = %d, %d' % (nx, ny))
    return nontrivial(case, K0), label(case)


def placed(case):
    s = mkshell(case)
    sub = dense(s.calc_kC())
    n = sub.shape[0]
    before, after = case['before'], case['after']
    size = n + before + after
    K = s.calc_kC(size=size, row0=before, col0=before)
    embed_ok(K, before, before, sub, size, 'kC')
    K = s.calc_kC(size='+%d' % (before + after), row0=before, col0=before)
    embed_ok(K, before, before, sub, size, 'kC with a relative size')
    c = expand(case['c'], size)
    K = s.calc_kC(size=size, row0=before, col0=before, c=c)
    embed_ok(K, before, before, sub, size, 'integrated kC', 1e-8)
    return nontrivial(case, sub), label(case)


def energy(case):
    """Positive semi-definite; translations (and rotations) of an unsupported plate need no energy"""
    s = mkshell(case)
    K = dense(s.calc_kC())
    d = np.sqrt(np.abs(np.diag(K)))
    d[d == 0] = 1.
    ev = np.linalg.eigvalsh(K / np.outer(d, d))
    if ev.min() < -1e-8:
        fail('kC has a negative eigenvalue (%g after scaling by the diagonal)' % ev.min())
    s = mkshell(case, **{k: 1. for k in FLAGS})
    if s.m < 4 or s.n < 4:
        return False, label(case)
    K = dense(s.calc_kC())
    m, n, a, b = s.m, s.n, s.a, s.b
    one_x, lin_x = np.zeros(m), np.zeros(m)
    one_x[[0, 2]] = 1
    lin_x[:4] = [-1, 2, 1, 2]             # xi: values -1, 1 and slopes 1 (half slope functions)
    one_y, lin_y = np.zeros(n), np.zeros(n)
    one_y[[0, 2]] = 1
    lin_y[:4] = [-1, 2, 1, 2]
    modes = []

    def mode(**kw):
        c = np.zeros(3 * m * n)
        for k, (fy, fx, amp) in kw.items():
            c['uvw'.index(k)::3] += amp * np.outer(fy, fx).ravel()
        modes.append(c)
    mode(u=(one_y, one_x, 1.))
    if case['model'].startswith('plate'):
        mode(v=(one_y, one_x, 1.))
        mode(w=(one_y, one_x, 1.))
        mode(u=(lin_y, one_x, -b / 2), v=(one_y, lin_x, a / 2))      # in-plane rotation
        mode(w=(one_y, lin_x, 1.))
        mode(w=(lin_y, one_x, 1.))
    else:
        mode(v=(one_y, one_x, 1.))       # rotation about the axis of the cylinder
    for c in modes:
        r = K @ c
        scale = np.abs(K) @ np.abs(c)
        if not (np.abs(r) <= 1e-9 * scale.max()).all():
            fail('a rigid body motion produces forces: %g of %g' % (np.abs(r).max(), scale.max()))
    return True, label(case)


def ortho(case):
    """force_orthotropic_laminate drops the couplings with shear and twist, and nothing else"""
    s = mkshell(case, force_orthotropic_laminate=True)
    K = s.calc_kC()
    F = mkabd(case)
    for i in (2, 5):
        for j in (0, 1, 3, 4):
            F[i, j] = F[j, i] = 0.
    K0 = mkdomain(case).kC(F)
    blockclose(K, K0, 1e-8, 'kC of the orthotropic laminate')
    c = expand(case['c'], s.get_size())
    blockclose(s.calc_kC(c=c), K0, 1e-8, 'integrated kC of the orthotropic laminate')
    return nontrivial(case, K0), label(case)


ALSO = [('c12', 'linear', 60, 1000), ('c19', 'matrices', 60, 1000)]
RELATIONS = [
    Relation('analytic', shells(long=12), analytic, 350, 6000, 8),
    Relation('numeric', with_(shells(hi=4), c=vec(0)), numeric, 200, 4000, 8),
    Relation('variable', with_(shells(hi=4), wave=st.tuples(num(-2, 2, 2), num(-2, 2, 2)).map(list),
                               pts=st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)), variable, 200, 4000, 8),
    Relation('placed', with_(shells(hi=3), before=st.integers(0, 4).map(lambda k: 3 * k), after=st.integers(0, 9),
                             c=vec(0)), placed, 150, 2000, 4),
    Relation('energy', shells(lo=4, hi=6), energy, 200, 3000, 8),
    Relation('orthotropic', with_(shells(hi=4), c=vec(0)), ortho, 150, 2000, 4),
    large('numeric', with_(shells(hi=4), c=vec(0)), numeric),
    large('analytic', shells(), analytic),
    large('variable', with_(shells(hi=4), wave=st.tuples(num(-2, 2, 2), num(-2, 2, 2)).map(list), pts=st.tuples(st.integers(2, 9), st.integers(2, 9)).map(list)), variable),
]
