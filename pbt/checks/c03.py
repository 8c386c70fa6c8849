"""C03: Legendre-Gauss quadrature rules"""
import numpy as np
from hypothesis import strategies as st

from core import Relation, fail
from panels.legendre_gauss_quadrature import get_points_weights

RULE = 'the integrand is a polynomial of degree >= 2 that the rule must integrate exactly'
ASSUMPTIONS = ['rules with 2 to 64 points, the ones the code provides']


def rule(n, canary=7.5):
    """The rule, computed in arrays with guard entries at the end"""
    p, w = np.full(n + 3, canary), np.full(n + 3, canary)
    get_points_weights(n, p, w)
    if not ((p[n:] == canary).all() and (w[n:] == canary).all()):
        fail('the rule with %d points writes past its arrays' % n)
    return p[:n].copy(), w[:n].copy()


def reference(case):
    n = case['n']
    p, w = rule(n)
    rp, rw = np.polynomial.legendre.leggauss(n)
    k = np.argsort(p, kind='stable')
    if not np.abs(p[k] - rp).max() <= 2e-14:
        fail('points of the rule with %d points differ by %.3g' % (n, np.abs(p[k] - rp).max()))
    if not np.abs(w[k] - rw).max() <= 2e-13:
        fail('weights of the rule with %d points differ by %.3g' % (n, np.abs(w[k] - rw).max()))
    return True


def exactness(case):
    """A rule with n points integrates Legendre series up to degree 2n - 1"""
    n = case['n']
    p, w = rule(n)
    c = np.array([float(t) for t in case['c']])
    c = np.array([c[k % len(c)] for k in range(2 * n)])      # degrees 0 .. 2n-1
    V = np.polynomial.legendre.legvander(p, 2 * n - 1)
    got = w @ (V @ c)
    if not abs(got - 2 * c[0]) <= 1e-12 * np.abs(c).sum():
        fail('rule with %d points: %r, expected %r' % (n, got, 2 * c[0]))
    for d in range(2 * n):
        e = 2. if d == 0 else 0.
        if not abs(w @ V[:, d] - e) <= 1e-12:
            fail('rule with %d points, Legendre polynomial of degree %d: %r' % (n, d, w @ V[:, d]))
    return bool(np.abs(c[2:]).max() > 0)


def mapped(case):
    """Points are distinct, inside (-1, 1), weights positive, symmetric, and integrate shifted monomials"""
    n, k, s = case['n'], case['k'], case['s']
    p, w = rule(n)
    if not (np.abs(p) < 1).all() or len(set(p)) != n or not (w > 0).all():
        fail('rule with %d points: points %r weights %r' % (n, p.tolist(), w.tolist()))
    k = k % (2 * n)
    got = w @ (p - s)**k
    e = ((1 - s)**(k + 1) - (-1 - s)**(k + 1)) / (k + 1)
    if not abs(got - e) <= 1e-12 * (2 * (1 + abs(s))**k):
        fail('rule with %d points: integral of (x - %g)^%d is %r, expected %r' % (n, s, k, got, e))
    return k >= 2


n_s = st.integers(2, 64)
RELATIONS = [
    Relation('reference', None, reference, 0, 0, 1, enum=lambda: [dict(n=n) for n in range(2, 65)]),
    Relation('exactness', st.fixed_dictionaries(dict(n=n_s, c=st.lists(st.integers(-9, 9), min_size=1, max_size=8))),
             exactness, 1500, 20000, 4),
    Relation('mapped', st.fixed_dictionaries(dict(n=n_s, k=st.integers(0, 127),
                                                  s=st.floats(-1, 1, allow_nan=False).map(lambda v: round(v, 3)))),
             mapped, 1500, 20000, 4),
]
