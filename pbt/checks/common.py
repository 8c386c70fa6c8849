"""Generators and builders shared by the checks.  A case is plain JSON."""
import numpy as np
from hypothesis import strategies as st

import ref
from core import HarnessError, Violation, blockclose, close, err, expect_raises, fail, is_known  # noqa: F401

FLAGS = tuple(e + d + r for e in ('x1', 'x2', 'y1', 'y2') for d in 'uvw' for r in ('', 'r'))

MATERIALS = (
    (142.5e9, 8.7e9, 0.28, 5.1e9, 5.1e9, 5.1e9),
    (49.e9, 9.6e9, 0.31, 3.4e9, 3.4e9, 3.4e9),
    (71.e9, 0.33),
    (11.e9, 29.e9, 0.12, 7.7e9, 7.7e9, 7.7e9),
    (3.e5, 1.1e5, 0.22, 0.7e5, 0.7e5, 0.7e5),
    (1.9, 0.6, 0.35, 0.41, 0.41, 0.41),
)

PLATE = 'plate_clpt_donnell_bardell'
CYL = 'cylshell_clpt_donnell_bardell'


def num(lo, hi, digits=4):
    return st.floats(lo, hi, allow_nan=False).map(lambda v: float(np.clip(round(v, digits), lo, hi)))


def flagset(frac=True):
    """24 flags: mostly 0 or 1, as the boundary conditions are given, sometimes in between"""
    one = st.sampled_from([0., 1.])
    f = st.lists(one, min_size=24, max_size=24)
    opts = [f, st.just([1.] * 24)]
    if frac:
        opts.append(st.lists(st.one_of(one, num(-2., 2., 2)), min_size=24, max_size=24))
    return st.one_of(*opts)


def stackset(maxplies=4):
    ang = st.one_of(st.sampled_from([0., 90., 45., -45., 30.]), num(-90, 90, 1))
    return st.lists(st.tuples(ang, num(0.2, 2., 2), st.integers(0, len(MATERIALS) - 3), num(0.5, 3., 2)).map(list),
                    min_size=1, max_size=maxplies)


def terms(lo=2, hi=5, long=None):
    base = st.tuples(st.integers(lo, hi), st.integers(lo, hi))
    if long is None:
        return base.map(list)
    return st.one_of(base, base, st.tuples(st.integers(hi, long), st.integers(lo, 3)),
                     st.tuples(st.integers(lo, 3), st.integers(hi, long))).map(list)


def shells(lo=2, hi=5, long=None, offset=True, frac=True, models=(PLATE, CYL), maxplies=4, mixed=True):
    """Geometry, series, laminate, density, boundary conditions"""
    return st.fixed_dictionaries(dict(
        model=st.sampled_from(list(models)),
        a=num(0.3, 4., 3), b=num(0.3, 4., 3), r=num(0.4, 9., 2),
        mn=terms(lo, hi, long),
        plies=stackset(maxplies),
        thick=st.sampled_from([1e-3, 1e-2, 5e-2]),
        uniform=st.booleans() if mixed else st.just(True),
        offset=st.one_of(st.just(0.), num(-2., 2., 2)) if offset else st.just(0.),
        flags=flagset(frac),
    ))


def fdict(case, key='flags'):
    return dict(zip(FLAGS, case[key]))


def laminate(case):
    """(stack, plyts, laminaprops, rhos, h, offset) of the case"""
    pl = case['plies']
    if case['uniform']:
        pl = [[p[0], pl[0][1], pl[0][2], pl[0][3]] for p in pl]
    stack = [p[0] for p in pl]
    plyts = [p[1] * case['thick'] * min(case['a'], case['b']) / len(pl) for p in pl]
    props = [MATERIALS[p[2]] for p in pl]
    rhos = [p[3] * 1000. for p in pl]
    h = sum(plyts)
    return stack, plyts, props, rhos, h, case['offset'] * h


def radius(case):
    return case['r'] if case['model'] == CYL else None


def mkshell(case, **kw):
    from panels import Shell
    stack, plyts, props, rhos, h, off = laminate(case)
    args = dict(a=case['a'], b=case['b'], r=radius(case), stack=stack, plyts=plyts, laminaprops=props, rhos=rhos,
                m=case['mn'][0], n=case['mn'][1], offset=off)
    args.update(fdict(case))
    args.update(kw)
    s = Shell(**args)
    s.out_num_cores = 1
    return s


def mkdomain(case, sf=1.):
    return ref.Domain(case['a'], case['b'], case['mn'][0], case['mn'][1], fdict(case), radius(case), sf=sf)


def mkabd(case):
    stack, plyts, props, rhos, h, off = laminate(case)
    return ref.abd(stack, plyts, props, off)


def vec(size, amp=1.):
    """Ritz constants as a short list of integers that is repeated with a twist: small to print, dense enough"""
    return st.lists(st.integers(-9, 9), min_size=3, max_size=24).map(lambda v: [float(t) for t in v])


def expand(v, size, amp=1.):
    v = list(v) or [1.]
    out = np.array([v[(k * 7 + k // len(v)) % len(v)] + 0.1 * ((k * 37) % 11 - 5) for k in range(size)])
    out = amp * out / 10.
    # as often as not a column of a matrix, as eigenvectors are
    return np.column_stack([out + 1., out])[:, 1] if int(abs(v[-1]) * 10) % 2 else out


def dense(A):
    return A.toarray() if hasattr(A, 'toarray') else np.asarray(A)


def symcheck(K, what):
    K = dense(K)
    if not np.isfinite(K).all():
        fail(what + ': not finite')
    close(K, K.T, 1e-12, what + ' is not symmetric')


def restrict(K, p0, p1):
    return dense(K)[p0:p1, p0:p1]


def grown(total, n):
    """The size of the assembled matrix, given as a number or as what is added to the size of the domain"""
    return total if (total - n) % 2 else '%d' % (total - n) if total % 2 else '+%d' % (total - n)


def embed_ok(K, row0, col0, sub, size, what, tol=1e-10):
    """K must be zero outside of the block that starts at (row0, col0)"""
    K = dense(K)
    if K.shape != (size, size):
        fail('%s: shape %s, expected %s' % (what, K.shape, (size, size)))
    n = sub.shape[0]
    mask = np.ones(K.shape, bool)
    mask[row0:row0 + n, col0:col0 + n] = False
    if np.abs(K[mask]).max(initial=0.) > 0:
        fail('%s: entries outside of the requested block' % what)
    blockclose(K[row0:row0 + n, col0:col0 + n], sub, tol, what + ' placed at an offset')


def field(case, nx, ny):
    """Laminate stiffness that changes from point to point: a sum of two laminates with varying weights"""
    stack, plyts, props, rhos, h, off = laminate(case)
    F1 = ref.abd(stack, plyts, props, off)
    F2 = ref.abd([t + 35. for t in stack[::-1]], plyts[::-1], props[::-1], off / 2)
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    k = case['wave']
    w1 = 1.5 + np.sin(1. + k[0] * i + k[1] * j)
    w2 = 1.5 + np.cos(.3 + k[1] * i - k[0] * j)
    return w1[..., None, None] * F1 + w2[..., None, None] * F2


def with_(base, **kw):
    return st.tuples(base, st.fixed_dictionaries(kw)).map(lambda t: dict(t[0], **t[1]))


wave = st.tuples(num(-2, 2, 2), num(-2, 2, 2)).map(list)


# --------------------------------------------------------------------------
# Long series (the tables and work arrays of the package hold 30 functions) and laminates of many plies.  The functions of the
# package are sums of monomials: their rounding grows with the index, to 1e-6 of a matrix of 30 terms
# --------------------------------------------------------------------------
_long = st.one_of(st.sampled_from([16, 17, 20, 24, 25, 30, 30]), st.integers(7, 30))


def longmn(lo, hi):
    return st.tuples(_long, st.integers(lo, hi), st.booleans()).map(lambda t: list(t[:2] if t[2] else t[1::-1]))


def lengthen(d, t, only=None):
    """The case with long series and several plies more, wherever it has these"""
    mn, more, which = t
    d = dict(d)
    seen = [0]

    def walk(q):
        if isinstance(q, dict):
            q = {k: walk(v) for k, v in q.items()}
            if 'mn' in q:
                if seen[0] == which or not which:
                    q['mn'] = list(mn) if not seen[0] or not which else list(mn[::-1])
                seen[0] += 1
            if 'plies' in q and more:
                q['plies'] = [[p[0] + 7. * k, p[1], (p[2] + k) % 4, p[3]] for k in range(more) for p in q['plies']]
        elif isinstance(q, list) and q and isinstance(q[0], dict):
            q = [walk(v) for v in q]
        return q
    return walk(d)


def large(name, strategy, fn, quick=25, thorough=800, slack=1e5, plies=True, short=(2, 3)):
    import core

    def check(case):
        core.SLACK = slack
        try:
            return fn(case)
        finally:
            core.SLACK = 1.
    more = st.one_of(st.just(0), st.integers(2, 6)) if plies else st.just(0)
    return core.Relation('large_' + name, st.tuples(strategy, st.tuples(longmn(*short), more, st.integers(0, 1))).map(lambda t: lengthen(*t)), check, quick, thorough, 8)
