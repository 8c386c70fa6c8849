"""C02: closed-form integrals of products of Bardell functions"""
from hypothesis import strategies as st

import ref
from core import Relation, fail
from panels import bardell as B
from functools import lru_cache

RULE = 'the exact integral is not zero'
ASSUMPTIONS = ['exact rational integrals of the reference polynomials']

TABLES = dict(ff=(0, 0), ffp=(0, 1), ffpp=(0, 2), fpfp=(1, 1), fpfpp=(1, 2), fppfpp=(2, 2))


@lru_cache(None)
def exact(i, j, d1, d2):
    return float(ref.pint(ref.pmul(ref.pder(ref.bardell(i), d1), ref.pder(ref.bardell(j), d2))))


def flags(fl):
    """A case gives 8 flags; entries of low-order terms are scaled by them"""
    return fl[:4], fl[4:]


def one(case):
    x, y = case['fl'][:4], case['fl'][4:]
    i, j = case['i'], case['j']
    d1, d2 = TABLES[case['table']]
    e = exact(i, j, d1, d2) * ref.flag(i, x) * ref.flag(j, y)
    got = getattr(B, 'calc_integral_' + case['table'])(i, j, *case['fl'])
    tol = 1e-12 * max(abs(e), 1e-3 if e == 0 else 0.)
    if not abs(got - e) <= tol:
        fail('integral %s(%d, %d) with flags %r: %r, expected %r' % (case['table'], i, j, case['fl'], got, e))
    return e != 0, [case['table']]


def all_entries():
    """Every entry of the six tables, with eight distinct flags (each flag must multiply its own term)"""
    fl = [0.7, -1.3, 1.9, 0.4, 1.1, -0.6, 2.3, -1.7]
    for t in TABLES:
        for i in range(30):
            for j in range(30):
                yield dict(table=t, i=i, j=j, fl=fl)


fl_s = st.one_of(st.sampled_from([0., 1.]), st.floats(-3, 3, allow_nan=False).map(lambda v: round(v, 3)))
idx = st.one_of(st.integers(0, 5), st.integers(0, 29))

RELATIONS = [
    Relation('entries', st.fixed_dictionaries(dict(table=st.sampled_from(sorted(TABLES)), i=idx, j=idx,
                                                   fl=st.lists(fl_s, min_size=8, max_size=8))), one, 6000, 100000, 8,
             enum=all_entries),
]
