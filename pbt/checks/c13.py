"""C13: connection matrices"""
import numpy as np
from hypothesis import strategies as st

from checks.common import large, blockclose, close, dense, expand, fail, mkdomain, mkshell, num, shells, vec, with_
from checks.joints import FUNCS, common_edges, energy_matrix, pairs, place, pos, symm
import core
from core import Relation

RULE = 'the reference matrix is not zero'
ASSUMPTIONS = ['both domains have the same length along the connected line, as the connection requires',
               'the diagonal blocks are read from their upper triangle, as the assembly does']

kval = st.one_of(st.sampled_from([0., 1., 1e8]), num(.1, 900., 2))
ktval = kval.filter(lambda v: v > 0)     # a joint always ties the translations; kr may be zero


def funcs():
    from panels.multidomain import connections as C
    return dict(SSycte=(C.kCSSycte.fkCSSycte11, C.kCSSycte.fkCSSycte12, C.kCSSycte.fkCSSycte22),
                SSxcte=(C.kCSSxcte.fkCSSxcte11, C.kCSSxcte.fkCSSxcte12, C.kCSSxcte.fkCSSxcte22),
                BFycte=(C.kCBFycte.fkCBFycte11, C.kCBFycte.fkCBFycte12, C.kCBFycte.fkCBFycte22),
                BFxcte=(C.kCBFxcte.fkCBFxcte11, C.kCBFxcte.fkCBFxcte12, C.kCBFxcte.fkCBFxcte22),
                SB=(C.kCSB.fkCSB11, C.kCSB.fkCSB12, C.kCSB.fkCSB22))


def blocks(func, S1, S2, s1, s2, kt, kr, dsb, size, r1, r2):
    f11, f12, f22 = funcs()[func]
    if func == 'SB':
        return (f11(kt, dsb, S1, size, r1, r1), f12(kt, dsb, S1, S2, size, r1, r2), f22(kt, S1, S2, size, r2, r2))
    return (f11(kt, kr, S1, s1, size, r1, r1), f12(kt, kr, S1, S2, s1, s2, size, r1, r2), f22(kt, kr, S1, S2, s2, size, r2, r2))


def mk(case):
    func = case['func']
    p1, p2 = common_edges(case, func)
    S1, S2 = mkshell(p1), mkshell(p2)
    d1, d2 = mkdomain(p1), mkdomain(p2)
    s1, s2 = place(case, func, p1, p2)
    return func, S1, S2, d1, d2, s1, s2


def whole(func, S1, S2, s1, s2, kt, kr, dsb, n1, n2):
    K11, K12, K22 = blocks(func, S1, S2, s1, s2, kt, kr, dsb, n1 + n2, 0, n1)
    return symm(K11) + symm(K22) + symm(K12)


def energy(case):
    func, S1, S2, d1, d2, s1, s2 = mk(case)
    kt, kr, dsb = case['kt'], case['kr'], case['dsb']
    n1, n2 = d1.size, d2.size
    E = energy_matrix(func, d1, d2, s1, s2, kt, kr, dsb)
    # room before, between and after
    r1, gap = case['before'], case['gap']
    r2 = r1 + n1 + gap
    size = r2 + n2 + 5
    K11, K12, K22 = blocks(func, S1, S2, s1, s2, kt, kr, dsb, size, r1, r2)
    for nm, K, ra, rb, na, nb, E0, sym in (('11', K11, r1, r1, n1, n1, E[:n1, :n1], True), ('12', K12, r1, r2, n1, n2, E[:n1, n1:], False),
                                           ('22', K22, r2, r2, n2, n2, E[n1:, n1:], True)):
        K = dense(K)
        if K.shape != (size, size):
            fail('%s %s: shape %s' % (func, nm, K.shape))
        B = K[ra:ra + na, rb:rb + nb].copy()
        K[ra:ra + na, rb:rb + nb] = 0.
        if np.abs(K).max(initial=0.) > 0:
            fail('%s %s: entries outside of the block' % (func, nm))
        if sym:
            B = symm(B)
        floor = 1e-5 * np.abs(E0).max(initial=0.) + (1e-9 if core.SLACK == 1 else 1e-3) * (abs(kt) + abs(kr))
        blockclose(B, E0, 1e-9, '%s, block %s' % (func, nm), floor=floor)
    return bool(np.abs(E).max() > 0), [func]


def definite(case):
    """Symmetric by construction, positive semi-definite, no stiffness for compatible motions"""
    func, S1, S2, d1, d2, s1, s2 = mk(case)
    kt, kr, dsb = case['kt'], case['kr'], case['dsb']
    n1, n2 = d1.size, d2.size
    K = whole(func, S1, S2, s1, s2, kt, kr, dsb, n1, n2)
    if not np.isfinite(K).all():
        fail('not finite')
    # scaled to a unit diagonal, so that rounding is relative to each dof
    s = np.sqrt(np.maximum(np.diag(K), 0.))
    if (np.diag(K) < 0).any():
        fail('negative diagonal')
    s[s == 0] = 1.
    ev = np.linalg.eigvalsh(K / np.outer(s, s))
    if ev[0] < -1e-9 * max(ev[-1], 1.):
        fail('not positive semi-definite: %g of %g' % (ev[0], ev[-1]))
    return bool(ev[-1] > 0), [func]


def motion(dom, u, v, w, wx=(0., 0., 0.)):
    """Constants of u, v (constants) and w = wx[0] + wx[1]*x + wx[2]*y of a domain with free edges; Hermite functions carry
    value and slope (the slope functions have d/dxi = 1/2 at their edge)"""
    c = np.zeros(dom.size)
    m = dom.m
    for comp, val in ((0, u), (1, v)):
        for j in (0, 2):
            for i in (0, 2):
                c[3 * (j * m + i) + comp] = val
    w0, wx1, wy1 = wx if wx is not None else (w, 0., 0.)
    for j in range(4):
        for i in range(4):
            x, y = (0. if i < 2 else dom.a), (0. if j < 2 else dom.b)
            dx, dy = i % 2, j % 2
            if dx and dy:
                val = 0.
            elif dx:
                val = wx1 * dom.a / 2 * 2
            elif dy:
                val = wy1 * dom.b / 2 * 2
            else:
                val = w0 + wx1 * x + wy1 * y
            c[3 * (j * m + i) + 2] = val
    return c


def compatible(case):
    """Motions that keep the joint closed need no energy, whatever the penalties"""
    case = dict(case, p1=dict(case['p1'], flags=[1.] * 24), p2=dict(case['p2'], flags=[1.] * 24))
    func, S1, S2, d1, d2, s1, s2 = mk(case)
    kt, kr, dsb = case['kt'], case['kr'], case['dsb']
    U, V, W, G = case['t']
    if func in ('SSycte', 'SSxcte'):
        # a slope along the normal of the line, common to both domains, and one along the line
        if func == 'SSycte':
            c1 = motion(d1, U, V, 0, (W - G * s1, .5, G))
            c2 = motion(d2, U, V, 0, (W - G * s2, .5, G))
        else:
            c1 = motion(d1, U, V, 0, (W - G * s1, G, .5))
            c2 = motion(d2, U, V, 0, (W - G * s2, G, .5))
    elif func == 'BFycte':
        # base: (u, v, w) ; flange: u2 = u1, w2 = v1, v2 = -w1 ; slope w1,y = w2,y
        c1 = motion(d1, U, V, 0, (W - G * s1, 0, G))
        c2 = motion(d2, U, -W, 0, (V - G * s2, 0, G))
    elif func == 'BFxcte':
        c1 = motion(d1, U, V, 0, (W - G * s1, G, 0))
        c2 = motion(d2, -W, V, 0, (U - G * s2, G, 0))
    else:
        c1 = motion(d1, U, V, 0, (W, G, .5))
        c2 = motion(d2, U + dsb * G, V + dsb * .5, 0, (W, G, .5))
    # the oracle knows nothing of how the constants were chosen: check them against the series first
    from checks.joints import mismatch
    cc = np.concatenate([c1, c2])
    scale = max(map(abs, case['t'])) + 1.
    for x, y in ((.3 * d1.a, .6 * d1.b), (d1.a, 0.)):
        t, r = mismatch(func, d1, d2, s1, s2, dsb, x, y)
        for row in t + ([r] if r is not None else []):
            if abs(row @ cc) > 1e-9 * scale * (1 + abs(dsb)) * 20:
                from core import HarnessError
                raise HarnessError('motion is not compatible: %s %s' % (func, row @ cc))
    K = whole(func, S1, S2, s1, s2, kt, kr, dsb, d1.size, d2.size)
    F = K @ cc
    S = np.abs(K) @ np.abs(cc)
    close(F, 0 * F, 1e-9, func + ': forces in a compatible motion', scale=S.max() or 1.)
    return bool(S.max() > 0), [func]


def exchange(case):
    """The joint does not know which domain is the first"""
    func, S1, S2, d1, d2, s1, s2 = mk(case)
    kt, kr = case['kt'], case['kr']
    n1, n2 = d1.size, d2.size
    K = whole(func, S1, S2, s1, s2, kt, kr, 0., n1, n2)
    Q = whole(func, S2, S1, s2, s1, kt, kr, 0., n2, n1)
    perm = np.r_[n2:n2 + n1, 0:n2]
    blockclose(K, Q[np.ix_(perm, perm)], 1e-10, func + ' with the domains exchanged', floor=1e-6 * np.abs(K).max(initial=0.))
    return bool(np.abs(K).max() > 0), [func]


def linear(case):
    """Proportional to the penalties: kt and kr act on their own terms"""
    func, S1, S2, d1, d2, s1, s2 = mk(case)
    kt, kr, dsb = case['kt'], case['kr'], case['dsb']
    n1, n2 = d1.size, d2.size
    w = lambda a, b: whole(func, S1, S2, s1, s2, a, b, dsb, n1, n2)
    A, B = w(1., 0.), w(1., 1.)
    K = w(kt, kr)
    R = kt * A + kr * (B - A)
    blockclose(K, R, 1e-10, func + ': superposition of penalties', floor=1e-7 * np.abs(R).max(initial=0.))
    return kr > 0, [func]


def penalties(case):
    """Prescribed displacements: point and line springs"""
    from panels.multidomain.connections import fkCld_xcte, fkCld_ycte, fkCpd
    S, dom = mkshell(case), mkdomain(case)
    k, kind = case['k'], case['kind']
    n = dom.size
    r0 = case['before']
    size = n + r0 + 4
    E = np.zeros((n, n))
    if kind == 'point':
        x, y = case['s'] * S.a, case['t'] * S.b
        K = fkCpd(k[0], k[1], k[2], S, x, y, size, r0, r0)
        pts = [(x, y, 1.)]
    elif kind == 'x':
        x = case['s'] * S.a
        K = fkCld_xcte(k[0], k[1], k[2], S, x, size, r0, r0)
        pts = [(x, y, w) for y, w in dom.line('y', max(dom.n, 4) + 1)]
    else:
        y = case['s'] * S.b
        K = fkCld_ycte(k[0], k[1], k[2], S, y, size, r0, r0)
        pts = [(x, y, w) for x, w in dom.line('x', max(dom.m, 4) + 1)]
    for x, y, w in pts:
        for d in range(3):
            o = dom.op('uvw'[d], x, y)
            E += w * k[d] * np.outer(o, o)
    K = dense(K)
    if K.shape != (size, size):
        fail('shape %s' % (K.shape,))
    B = symm(K[r0:r0 + n, r0:r0 + n])
    K[r0:r0 + n, r0:r0 + n] = 0
    if np.abs(K).max() > 0:
        fail('entries outside of the block')
    blockclose(B, E, 1e-9, 'spring at a ' + kind, floor=1e-6 * np.abs(E).max() + (1e-9 if core.SLACK == 1 else 1e-3) * max(map(abs, k)))
    return bool(np.abs(E).max() > 0), [kind]


FS = st.sampled_from(FUNCS)
KK = dict(kt=ktval, kr=kval, dsb=num(-.2, .2, 3), func=FS)
before = st.integers(0, 3).map(lambda k: 3 * k)
ALSO = [('c12', 'linear', 100, 1500), ('c19', 'matrices', 80, 1000)]
RELATIONS = [
    Relation('energy', with_(pairs(hi=6), before=before, gap=before, **KK), energy, 400, 6000, 8),
    Relation('definite', with_(pairs(hi=5), **KK), definite, 200, 3000, 4),
    Relation('compatible', with_(pairs(lo=4, hi=6), t=st.lists(num(-9, 9, 1), min_size=4, max_size=4), **KK), compatible, 250, 3000, 4),
    Relation('exchange', with_(pairs(hi=5), kt=ktval, kr=kval, dsb=st.just(0.), func=st.sampled_from(['SSycte', 'SSxcte'])), exchange, 200, 3000, 4),
    Relation('linear', with_(pairs(hi=4), **KK), linear, 200, 2000, 4),
    Relation('penalties', with_(shells(hi=6), k=st.lists(kval, min_size=3, max_size=3), kind=st.sampled_from(['point', 'x', 'y']),
                                s=pos, t=pos, before=before), penalties, 300, 4000, 4),
    large('energy', with_(pairs(), before=before, gap=before, **KK), energy),
    large('penalties', with_(shells(), k=st.lists(kval, min_size=3, max_size=3), kind=st.sampled_from(['point', 'x', 'y']), s=pos, t=pos, before=before), penalties),
]
