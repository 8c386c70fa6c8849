"""C01: Bardell functions and the edge flags"""
from fractions import Fraction as Fr

import numpy as np
from hypothesis import strategies as st

import ref
from core import Relation, fail
from panels import bardell as B

RULE = 'evaluated away from the origin, or on a non-empty interval, with at least one nonzero flag'
ASSUMPTIONS = ['the reference is the Legendre recurrence integrated twice, in exact rationals',
               'tolerance: 1e-14 of the sum of the magnitudes of the coefficients (rounding of the monomial form)']

CALC = (B.calc_f, B.calc_fp, B.calc_fpp)
VEC = (B.calc_vec_f, B.calc_vec_fp, B.calc_vec_fpp)
xi_s = st.one_of(st.sampled_from([-1., 1., 0., 0.5, -0.5]), st.floats(-1, 1, allow_nan=False))
flag_s = st.one_of(st.sampled_from([0., 1.]), st.floats(-4, 4, allow_nan=False).map(lambda v: round(v, 3)))
fl4 = st.lists(flag_s, min_size=4, max_size=4)


def mag(i, d):
    return float(sum(abs(c) for c in ref.pder(ref.bardell(i), d)))


MAG = [[mag(i, d) for i in range(30)] for d in range(3)]


def exact(i, d, xi):
    return float(ref.pval(ref.pder(ref.bardell(i), d), Fr(xi)))


def values(case):
    fl, xi = case['fl'], case['xi']
    for d in range(3):
        v = VEC[d](xi, *fl)
        if v.shape[0] < 30:
            fail('only %d functions' % v.shape[0])
        for i in range(30):
            e = exact(i, d, xi) * ref.flag(i, fl)
            tol = 1e-14 * MAG[d][i] * max(1., abs(ref.flag(i, fl)))
            s = CALC[d](i, xi, *fl)
            for got, nm in ((s, 'scalar'), (v[i], 'vector')):
                if not abs(got - e) <= tol:
                    fail('%s form of derivative %d of function %d at %r with flags %r: %r, expected %r'
                         % (nm, d, i, xi, fl, got, e))
    return xi != 0 and any(fl), ['edge' if abs(xi) == 1 else 'inside']


def edges(case):
    """Each edge freedom is controlled by exactly one flag, and by no function beyond the first four"""
    fl = case['fl']
    want = {(-1., 0): 0, (-1., 1): 1, (1., 0): 2, (1., 1): 3}
    for (xi, d), owner in want.items():
        v = VEC[d](xi, *fl)
        for i in range(30):
            e = fl[owner] * (0.5 if d else 1.) if i == owner else 0.
            tol = 1e-14 * max(1., MAG[d][i]) * 5
            for got in (v[i], CALC[d](i, xi, *fl)):
                if not abs(got - e) <= tol:
                    fail('function %d, derivative %d at edge %g with flags %r: %r, expected %r' % (i, d, xi, fl, got, e))
    return any(fl)


def derivative(case):
    """The integral of each derivative over [p, q] is the change of the function below it"""
    fl, p, q = case['fl'], case['p'], case['q']
    g, w = ref.gauss(18)
    for d in (0, 1):
        xs = (g + 1) / 2 * (q - p) + p
        vals = np.array([VEC[d + 1](x, *fl)[:30] for x in xs])
        integ = (w[:, None] * vals).sum(0) * (q - p) / 2
        diff = VEC[d](q, *fl)[:30] - VEC[d](p, *fl)[:30]
        for i in range(30):
            tol = 3e-14 * MAG[d + 1][i] * max(1., abs(ref.flag(i, fl)))
            if not abs(integ[i] - diff[i]) <= tol:
                fail('function %d: integral of derivative %d over [%r, %r] is %r, change of derivative %d is %r'
                     % (i, d + 1, p, q, integ[i], d, diff[i]))
    return p != q and any(fl)


RELATIONS = [
    Relation('values', st.fixed_dictionaries(dict(xi=xi_s, fl=fl4)), values, 1500, 40000, 8),
    Relation('edges', st.fixed_dictionaries(dict(fl=fl4)), edges, 1500, 20000, 4),
    Relation('derivative', st.fixed_dictionaries(dict(p=xi_s, q=xi_s, fl=fl4)), derivative, 1000, 20000, 4),
]
