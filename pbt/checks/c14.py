"""C14: penalty constants"""
import numpy as np
from hypothesis import strategies as st

from checks.common import close, expect_raises, fail, laminate, mkabd, mkshell, num, shells, with_
from checks.joints import pairs
from core import Relation

RULE = 'both laminates are different, or the case is a single domain'
ASSUMPTIONS = ['the constants are those of the reference cited in the documentation, with the stiffnesses about the reference surface']

TYPES = ('xcte', 'ycte', 'bot-top', 'xcte-ycte', 'ycte-xcte')


def expected(kind, A1, A2, h1, h2, p1):
    i, j = {'xcte': (0, 0), 'ycte': (1, 1), 'bot-top': (0, 0), 'xcte-ycte': (0, 1), 'ycte-xcte': (1, 0)}[kind]

    def mean(s):
        a, b = A1[i + s, i + s], A2[j + s, j + s]
        return 4 * a * b / ((a + b) * (h1 + h2))
    if kind == 'bot-top':
        return mean(0) / min(p1['a'], p1['b']), None
    return mean(0), mean(3)


def compare(got, exp, what):
    for nm, g, e in zip(('kt', 'kr'), got, exp):
        if e is None:
            if g is not None:
                fail('%s: %s should not be defined' % (what, nm))
        else:
            if not (np.isfinite(g) and g > 0):
                fail('%s: %s = %r is not positive' % (what, nm, g))
            close(np.array(g), np.array(e), 1e-9, '%s of %s' % (nm, what))


def joints(case):
    from panels.multidomain.connections import calc_kt_kr
    p1, p2 = case['p1'], case['p2']
    S1, S2 = mkshell(p1), mkshell(p2)
    if case['used']:
        S1.calc_kC(), S2.calc_kM()
    F1, F2 = mkabd(p1), mkabd(p2)
    h1, h2 = laminate(p1)[4], laminate(p2)[4]
    kind = case['kind']
    K = calc_kt_kr(S1, S2, kind)
    compare(K, expected(kind, F1, F2, h1, h2, p1), kind)
    back = {'xcte-ycte': 'ycte-xcte', 'ycte-xcte': 'xcte-ycte'}.get(kind, kind)
    if kind != 'bot-top':
        compare(calc_kt_kr(S2, S1, back), K, kind + ' with the domains exchanged')
    if calc_kt_kr(S1, S2, kind.upper()) != K:
        fail('the kind of connection is not case sensitive')
    return p1['plies'] != p2['plies'], [kind]


def scaled(case):
    """Material stiffness and unit of length"""
    from panels.multidomain.connections import calc_kt_kr
    s, t, kind = case['s'], case['t'], case['kind']
    K = calc_kt_kr(mkshell(case['p1']), mkshell(case['p2']), kind)

    def mk(p):
        stack, plyts, props, rhos, h, off = laminate(p)
        props = [tuple(v if k == (1 if len(q) == 2 else 2) else v * s for k, v in enumerate(q)) for q in props]
        return mkshell(p, a=p['a'] * t, b=p['b'] * t, laminaprops=props, plyts=[v * t for v in plyts], offset=off * t)
    Q = calc_kt_kr(mk(case['p1']), mk(case['p2']), kind)
    # kt: force/length^2 per length (stress per thickness): E h / h; per area for surfaces.  kr: E h^3 / h
    if kind == 'bot-top':
        e = (K[0] * s / t, None)
    else:
        e = (K[0] * s, K[1] * s * t**2)
    compare(Q, e, kind + ' in other units')
    return case['p1']['plies'] != case['p2']['plies'], [kind]


def redefined(case):
    """The constants follow the laminate that the domains have when they are asked for"""
    from panels.multidomain.connections import calc_kt_kr
    p1, p2, kind = case['p1'], case['p2'], case['kind']
    S1, S2 = mkshell(p1), mkshell(p2)
    calc_kt_kr(S1, S2, kind)
    stack, plyts, props, rhos, h, off = laminate(p2)
    S1.stack, S1.plyts, S1.laminaprops, S1.rhos, S1.offset = stack, plyts, props, rhos, off
    compare(calc_kt_kr(S1, S2, kind), expected(kind, mkabd(p2), mkabd(p2), h, h, p1), kind + ' after a change of laminate')
    return p1['plies'] != p2['plies'], [kind]


def single(case):
    from panels.multidomain.connections import (calc_ku_kv_kw_line_pd_xcte, calc_ku_kv_kw_line_pd_ycte,
                                                calc_ku_kv_kw_point_pd, calc_kw_tsl)
    S, F = mkshell(case), mkabd(case)
    S.calc_kC()
    e = np.array([F[0, 0], F[1, 1], F[0, 0]])
    close(np.array(calc_ku_kv_kw_point_pd(S)), e, 1e-10, 'point penalties')
    close(np.array(calc_ku_kv_kw_line_pd_xcte(S)), e / case['b'], 1e-10, 'line penalties at constant x')
    close(np.array(calc_ku_kv_kw_line_pd_ycte(S)), e / case['a'], 1e-10, 'line penalties at constant y')
    T = mkshell(case)
    close(np.array(calc_kw_tsl(S, T, 'linear')), np.array(1e4 / (case['a'] * case['b'])), 1e-12, 'interface stiffness')
    for k in ('a', 'b'):
        T = mkshell(dict(case, **{k: case[k] * 1.25}))
        expect_raises(lambda: calc_kw_tsl(S, T, 'linear'), ValueError, 'interface between domains of different %s' % k)
    return True


KIND = st.sampled_from(TYPES)
P = pairs(lo=2, hi=2, frac=False)
ALSO = [('c12', 'linear', 80, 1000), ('c19', 'matrices', 80, 1000), ('c21', 'build', 40, 600)]
RELATIONS = [
    Relation('joints', with_(P, kind=KIND, used=st.booleans()), joints, 800, 8000, 4),
    Relation('scaled', with_(P, kind=KIND, s=num(.2, 9., 2), t=num(.2, 9., 2)), scaled, 500, 5000, 4),
    Relation('redefined', with_(P, kind=KIND), redefined, 400, 4000, 4),
    Relation('single', shells(hi=2, frac=False), single, 400, 3000, 4),
]
