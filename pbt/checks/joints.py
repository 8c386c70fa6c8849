"""Connections between domains: reference energies, and builders shared by several checks"""
import numpy as np
from hypothesis import strategies as st

import ref
from checks.common import mkdomain, mkshell, num, shells

FUNCS = ('SSycte', 'SSxcte', 'BFycte', 'BFxcte', 'SB')


def common_edges(case, func):
    """The second domain has the edges that the connection needs"""
    p1, p2 = dict(case['p1']), dict(case['p2'])
    if func in ('SSycte', 'BFycte', 'SB', 'SB_TSL'):
        p2['a'] = p1['a']
    if func in ('SSxcte', 'BFxcte', 'SB', 'SB_TSL'):
        p2['b'] = p1['b']
    return p1, p2


def mismatch(func, d1, d2, s1, s2, dsb, x, y):
    """Rows of the translation mismatches and of the rotation mismatch, over the constants of both domains.
    (x, y) is the running coordinate: y is ignored for lines at constant y and x for those at constant x"""
    if func in ('SSycte', 'BFycte'):
        q1, q2 = (x, s1), (x, s2)
    elif func in ('SSxcte', 'BFxcte'):
        q1, q2 = (s1, y), (s2, y)
    else:
        q1 = q2 = (x, y)

    def row(r1, r2):
        return np.concatenate([r1, r2])
    u1, v1, w1 = (d1.op(k, *q1) for k in 'uvw')
    u2, v2, w2 = (d2.op(k, *q2) for k in 'uvw')
    if func in ('SSycte', 'SSxcte'):
        t = [row(u1, -u2), row(v1, -v2), row(w1, -w2)]
    elif func == 'BFycte':
        t = [row(u1, -u2), row(v1, -w2), row(w1, v2)]
    elif func == 'BFxcte':
        t = [row(u1, -w2), row(v1, -v2), row(w1, u2)]
    else:
        t = [row(u1 + dsb * d1.op('w', *q1, 1, 0), -u2), row(v1 + dsb * d1.op('w', *q1, 0, 1), -v2), row(w1, -w2)]
    k = (1, 0) if func in ('SSxcte', 'BFxcte') else (0, 1)
    r = row(d1.op('w', *q1, *k), -d2.op('w', *q2, *k)) if func not in ('SB', 'SB_TSL') else None
    return t, r


def energy_matrix(func, d1, d2, s1, s2, kt, kr, dsb=0.):
    """Hessian of the penalty energy"""
    N = d1.size + d2.size
    K = np.zeros((N, N))
    nx = max(d1.m, d2.m, 4) + 1
    ny = max(d1.n, d2.n, 4) + 1
    if func in ('SSycte', 'BFycte'):
        pts = [(x, None, w) for x, w in d1.line('x', nx)]
    elif func in ('SSxcte', 'BFxcte'):
        pts = [(None, y, w) for y, w in d1.line('y', ny)]
    else:
        pts = [(x, y, w) for x, y, w, i, j in d1.grid(nx, ny)]
    for x, y, w in pts:
        t, r = mismatch(func, d1, d2, s1, s2, dsb, x, y)
        for row in t:
            K += w * kt * np.outer(row, row)
        if r is not None:
            K += w * kr * np.outer(r, r)
    return K


pos = st.one_of(st.sampled_from([0., 1., .5]), num(0, 1, 3))


def place(case, func, p1, p2):
    """Positions of the line in both domains"""
    L = 'b' if func.endswith('ycte') else 'a'
    return case['s1'] * p1[L], case['s2'] * p2[L]


def symm(U):
    """The symmetric matrix that an upper triangle stands for"""
    U = np.triu(U.toarray() if hasattr(U, 'toarray') else U)
    return U + U.T - np.diag(np.diag(U))


def pairs(lo=2, hi=5, **kw):
    return st.fixed_dictionaries(dict(p1=shells(lo=lo, hi=hi, **kw), p2=shells(lo=lo, hi=hi, **kw), s1=pos, s2=pos))
