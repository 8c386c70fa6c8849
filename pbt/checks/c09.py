"""C09: external force vector"""
import numpy as np
from hypothesis import strategies as st

import core
import ref
from checks.common import large, close, expand, fail, grown, mkdomain, mkshell, num, shells, vec, with_
from core import Relation

RULE = 'at least one load has a nonzero virtual work'
ASSUMPTIONS = ['line loads are polynomials that the rule used by the code (as many points as terms) integrates exactly']

f3 = st.lists(st.one_of(st.just(0.), num(-50, 50, 1)), min_size=3, max_size=3)
pos = st.one_of(st.sampled_from([0., 1., .5]), num(0, 1, 3))
point = st.fixed_dictionaries(dict(kind=st.just('point'), x=pos, y=pos, f=f3, cte=st.booleans()))
poly = st.one_of(st.none(), st.lists(num(-9, 9, 1), min_size=1, max_size=3), st.lists(num(-9, 9, 1), min_size=4, max_size=12))
line = st.fixed_dictionaries(dict(kind=st.sampled_from(['linex', 'liney']), s=pos, cte=st.booleans(),
                                  p=st.tuples(poly, poly, poly).filter(lambda t: any(q is not None for q in t)).map(list)))
k3 = st.lists(num(0.5, 900, 1), min_size=3, max_size=3)
ppd = st.fixed_dictionaries(dict(kind=st.just('pointpd'), x=pos, y=pos, f=f3, k=k3, cte=st.booleans()))
lpd = st.fixed_dictionaries(dict(kind=st.sampled_from(['pdx', 'pdy']), s=pos, k=k3, cte=st.booleans(),
                                 p=st.tuples(poly, poly, poly).filter(lambda t: any(q is not None for q in t)).map(list)))
loads = st.lists(st.one_of(point, line, ppd, lpd), min_size=1, max_size=5)


def maxdeg(terms):
    """Degree of the load that `terms` points still integrate exactly against the series"""
    return 2 * terms - 1 - max(3, terms - 1)


def func(p, deg, calls):
    if p is None:
        return None
    p = p[:deg + 1]

    def f(t):
        calls.append(t)
        return sum(q * t**k for k, q in enumerate(p))
    return f


def apply(s, loads):
    """Adds the loads to the shell; yields (place, direction index, function or value, factor, cte) for the oracle"""
    out = []
    for L in loads:
        if L['kind'] == 'point':
            s.add_point_load(L['x'] * s.a, L['y'] * s.b, *L['f'], cte=L['cte'])
            out.append(('point', L['x'] * s.a, L['y'] * s.b, L['f'], L['cte']))
        elif L['kind'] == 'pointpd':
            k, f = L['k'], L['f']
            s.add_point_pd(L['x'] * s.a, L['y'] * s.b, k[0], f[0], k[1], f[1], k[2], f[2], cte=L['cte'])
            out.append(('point', L['x'] * s.a, L['y'] * s.b, [a * b for a, b in zip(k, f)], L['cte']))
        else:
            along_y = L['kind'] in ('linex', 'pdx')      # fixed x: integrated along y
            deg = maxdeg(s.n if along_y else s.m)
            fs = [func(p, deg, []) for p in L['p']]
            at = L['s'] * (s.a if along_y else s.b)
            if L['kind'] in ('linex', 'liney'):
                add = s.add_distr_load_fixed_x if along_y else s.add_distr_load_fixed_y
                add(at, *fs, cte=L['cte'])
                k = [1., 1., 1.]
            else:
                add = s.add_distr_pd_fixed_x if along_y else s.add_distr_pd_fixed_y
                k = L['k']
                kk = [k[i] if fs[i] is not None else None for i in range(3)]
                add(at, *kk, *fs, cte=L['cte'])
            out.append(('y' if along_y else 'x', at, None, [(q, f) for q, f in zip(k, fs)], L['cte']))
    return out


def expected(dom, rec, inc):
    f = np.zeros(dom.size)
    for kind, p, q, v, cte in rec:
        t = 1. if cte else inc
        if kind == 'point':
            for d in range(3):
                f += t * v[d] * dom.op('uvw'[d], p, q)
        else:
            for z, w in dom.line('y' if kind == 'y' else 'x', 8 + max(dom.m, dom.n)):
                x, y = (p, z) if kind == 'y' else (z, p)
                for d in range(3):
                    k, fn = v[d]
                    if fn is not None:
                        f += t * w * k * fn(z) * dom.op('uvw'[d], x, y)
    return f


def label(case):
    return sorted({L['kind'] for L in case['loads']})


def total(dom, rec, inc):
    """Sum of the magnitudes of the loads, what rounding is relative to"""
    t = 0.
    for kind, p, q, v, cte in rec:
        if kind == 'point':
            t += sum(map(abs, v))
        else:
            t += sum(w * abs(k * fn(z)) for z, w in dom.line(kind, 20) for k, fn in v if fn is not None)
    return t * max(1., abs(inc))


def check(f, e, what, size=0.):
    for k in range(3):
        s = np.abs(e[k::3]).max(initial=0.)
        close(f[k::3], e[k::3], 1e-9, '%s (%s)' % (what, 'uvw'[k]), scale=s + 1e-6 * np.abs(e).max(initial=0.) + 1e-5 * size + 1e-7 * max(1., 100 * core.SLACK - 99))


def virtual(case):
    s, dom = mkshell(case), mkdomain(case)
    s.calc_kC()
    rec = apply(s, case['loads'])
    inc = case['inc']
    e = expected(dom, rec, inc)
    size0 = total(dom, rec, inc)
    f = s.calc_fext(inc=inc)
    check(f, e, 'external forces', size0)
    check(s.calc_fext(inc=inc), e, 'external forces, second call', size0)
    check(s.calc_fext(), expected(dom, rec, 1.), 'external forces at full load', size0)
    off = case['before']
    size = f.size + off + 4
    g = s.calc_fext(inc=inc, size=grown(size, f.size), col0=off)
    if g.shape != (size,) or np.abs(np.delete(g, np.arange(off, off + f.size))).max(initial=0.) > 0:
        fail('external forces outside of the requested range')
    check(g[off:off + f.size], e, 'external forces placed at an offset', size0)
    return bool(np.abs(e).max() > 0), label(case)


def superposed(case):
    """The vector of many loads is the sum of the vectors of each, in any order"""
    inc = case['inc']
    s = mkshell(case)
    s.calc_kC()
    rec = apply(s, case['loads'])
    tot, mag = 0., 0.
    for L in case['loads']:
        t = mkshell(case)
        t.calc_kC()
        apply(t, [L])
        f = t.calc_fext(inc=inc)
        tot, mag = tot + f, mag + np.abs(f)
    f0, f1, f3_ = s.calc_fext(inc=0.), s.calc_fext(inc=1.), s.calc_fext(inc=3.)
    size = np.max(mag) + max(np.abs(g).max() for g in (f0, f1, f3_)) + 1e-4 * total(mkdomain(case), rec, inc) or 1.
    close(s.calc_fext(inc=inc), tot, 1e-11, 'superposition', scale=size)
    t = mkshell(case)
    t.calc_kC()
    apply(t, case['loads'][::-1])
    close(t.calc_fext(inc=inc), tot, 1e-11, 'order of the loads', scale=size)
    # affine in the load factor: constant part + inc * variable part
    close(f3_ - f0, 3 * (f1 - f0), 1e-11, 'load factor', scale=size)
    return len(case['loads']) > 1 and np.max(mag) > 0, label(case)


def prescribed(case):
    """Penalty forces of prescribed displacements equal the penalty stiffness times any state that complies with them"""
    from panels.multidomain.connections import fkCld_xcte, fkCld_ycte, fkCpd
    s, dom = mkshell(case), mkdomain(case)
    s.calc_kC()
    size = s.get_size()
    c = expand(case['c'], size)
    k, kind = case['k'], case['kind']
    p = case['s'] * (s.b if kind == 'y' else s.a)
    q = case['t'] * s.b
    up = np.triu
    if kind == 'point':
        d = [dom.op(t, p, q) @ c for t in 'uvw']
        s.add_point_pd(p, q, k[0], d[0], k[1], d[1], k[2], d[2])
        K = fkCpd(k[0], k[1], k[2], s, p, q, size, 0, 0)
    elif kind == 'x':
        fs = [lambda y, t=t: dom.op(t, p, y) @ c for t in 'uvw']
        s.add_distr_pd_fixed_x(p, *k, *fs)
        K = fkCld_xcte(k[0], k[1], k[2], s, p, size, 0, 0)
    else:
        fs = [lambda x, t=t: dom.op(t, x, p) @ c for t in 'uvw']
        s.add_distr_pd_fixed_y(p, *k, *fs)
        K = fkCld_ycte(k[0], k[1], k[2], s, p, size, 0, 0)
    K = up(K.toarray())
    K = K + K.T - np.diag(np.diag(K))
    f = s.calc_fext()
    S = np.abs(K) @ np.abs(c)
    for t in range(3):
        close(f[t::3], (K @ c)[t::3], 1e-9, 'penalty forces (%s)' % 'uvw'[t], scale=S[t::3].max() + 1e-9 * S.max() + (1e-12 if core.SLACK == 1 else 1e-5) * max(k) * np.abs(c).max() or 1.)
    return bool(S.max() > 0), [kind]


SH = shells(lo=3, hi=6, long=13)
ALSO = [('c12', 'forces', 100, 1500), ('c19', 'forces', 80, 1000)]
RELATIONS = [
    Relation('virtual', with_(SH, loads=loads, inc=st.one_of(st.sampled_from([0., 1.]), num(-3, 3, 2)),
                              before=st.integers(0, 3).map(lambda k: 3 * k)), virtual, 600, 8000, 8),
    Relation('superposed', with_(SH, loads=loads, inc=num(-3, 3, 2)), superposed, 400, 5000, 8),
    Relation('prescribed', with_(shells(lo=4, hi=6), c=vec(0), k=k3, kind=st.sampled_from(['point', 'x', 'y']), s=pos, t=pos),
             prescribed, 300, 4000, 8),
    large('virtual', with_(SH, loads=loads, inc=num(-3, 3, 2), before=st.integers(0, 3).map(lambda k: 3 * k)), virtual, short=(4, 5)),
    large('prescribed', with_(shells(lo=4, hi=6), c=vec(0), k=k3, kind=st.sampled_from(['point', 'x', 'y']), s=pos, t=pos), prescribed, short=(4, 5)),
]
