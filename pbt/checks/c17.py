"""C17: cylindrical shells and plates"""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import eigh

import ref
from checks.common import CYL, MATERIALS, PLATE, close, dense, expand, fail, mkshell, num, shells, vec, with_
from core import Relation

RULE = 'the curvature changes the results, or the case is a closed cylinder'
ASSUMPTIONS = ['Donnell kinematics: the circumferential strain has the term w / r and no other depends on the radius']

FIELDS = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
RES = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def results(case, r, c, nl, model=None):
    s = mkshell(case, r=r)
    if model:
        s.model = model
    s.Nxx, s.Nyy, s.Nxy = case['N']
    s.beta, s.gamma, s.flow = 1.7, None, case['flow']
    s.add_point_load(.3 * s.a, .6 * s.b, 1., 2., 3.)
    out = dict(kC=(dense(s.calc_kC()), 2), kG=(dense(s.calc_kG()), 0), kM=(dense(s.calc_kM()), 0), kA=(dense(s.calc_kA()), 0),
               cA=(dense(s.calc_cA(1.3)).imag, 0), fext=(np.asarray(s.calc_fext()), 0))
    nx, ny = s.m + 3, s.n + 3
    if nl:
        out['kC(c)'] = (dense(s.calc_kC(c=c, NLgeom=True, nx=nx, ny=ny)), 2)
        out['kG(c)'] = (dense(s.calc_kG(c=c, NLgeom=True, nx=nx, ny=ny)), 1)
        out['fint'] = (np.asarray(s.calc_fint(c, nx=nx, ny=ny)), 2)
    else:
        out['kC, numerical'] = (dense(s.calc_kC(c=c, nx=nx, ny=ny)), 2)
        out['kG(c)'] = (dense(s.calc_kG(c=c, nx=nx, ny=ny)), 1)
    s.beta, s.Mach, s.rho_air, s.V = None, 1.5, 1.2, 3.
    out['kA from Mach'] = (dense(s.calc_kA()), 1 if case['flow'] == 'x' else 0)
    xs, ys = np.array([.2, .7]) * s.a, np.array([.45, .9]) * s.b
    s.strain(c, xs, ys, NLgeom=nl)
    out['strain'] = (np.array([s.fields[k] for k in FIELDS]), 1)
    s.stress(c, xs=xs, ys=ys, NLgeom=nl)
    out['stress'] = (np.array([s.fields[k] for k in RES]), 1)
    s.uvw(c, xs, ys)
    out['uvw'] = (np.array([s.fields[k] for k in 'uvw'] + [s.fields['phix'], s.fields['phiy']]), 0)
    return out, s.model


def amplitudes(case):
    c = expand(case['c'], 3 * case['mn'][0] * case['mn'][1])
    h = case['thick'] * min(case['a'], case['b'])
    c *= h
    for k in range(2):
        c[k::3] *= h / min(case['a'], case['b'])
    return c


def pieces(A):
    """Groups of entries of a common size"""
    if A.ndim == 2 and A.shape[0] == A.shape[1] and A.shape[0] % 3 == 0:
        return [(('uvw'[i], 'uvw'[j]), np.s_[i::3, j::3]) for i in range(3) for j in range(3)]
    if A.ndim == 1:
        return [('uvw'[i], np.s_[i::3]) for i in range(3)]
    return [('row %d' % i, np.s_[i]) for i in range(A.shape[0])]


def flatten(case):
    """Every result is a polynomial of the curvature 1/r, whose constant is the result of the plate"""
    c, nl = amplitudes(case), case['nl']
    R = case['r']
    P, model = results(case, None, c, nl)
    if model != PLATE:
        fail('without radius the model is %s' % model)
    Rs = [results(case, R * f, c, nl) for f in (1., 2., .75, -1.5)]
    for _, model in Rs:
        if model != CYL:
            fail('with a radius the model is %s' % model)
    ks = np.array([1., .5, 1 / .75, -1 / 1.5])      # the last one: the axis on the other side
    curved = False
    # sizes of the series with every freedom: what rounding is relative to
    N0, N1 = (results(dict(case, flags=[1.] * 24), q, c, nl)[0] for q in (None, R))
    nat = {k: np.abs(N0[k][0]).max() + np.abs(N1[k][0]).max() for k in P}
    for k in P:
        p0, deg = P[k]
        v1, v2, v3, v4 = (q[0][k][0] for q in Rs)
        if deg == 0:
            pred = {1.: p0, .5: p0, ks[2]: p0, ks[3]: p0}
        elif deg == 1:
            A = v1 - p0
            pred = {.5: p0 + .5 * A, ks[2]: p0 + ks[2] * A, ks[3]: p0 + ks[3] * A}
        else:
            # v1 = p0 + A + B, v2 = p0 + A/2 + B/4
            B = 2 * (v1 - p0) - 4 * (v2 - p0)
            A = (v1 - p0) - B
            pred = {q: p0 + q * A + q**2 * B for q in ks[2:]}
        got = {1.: v1, .5: v2, ks[2]: v3, ks[3]: v4}
        curved |= bool(np.abs(v1 - p0).max(initial=0.) > 1e-6 * np.abs(p0).max(initial=0.) and deg > 0)
        diag = None
        for q in pred:
            for nm, s in pieces(p0):
                sc = max(np.abs(x[s]).max(initial=0.) for x in (p0, v1, v2, v3, v4))
                if p0.ndim == 2 and p0.shape[0] == p0.shape[1] and p0.shape[0] % 3 == 0:
                    i, j = ('uvw'.index(t) for t in nm)
                    sc = max(sc, math.sqrt(max(np.abs(x[i::3, i::3]).max(initial=0.) for x in (p0, v1, v3, v4))
                                           * max(np.abs(x[j::3, j::3]).max(initial=0.) for x in (p0, v1, v3, v4))))
                elif k in ('fint', 'strain', 'stress'):
                    sc = max(np.abs(x).max(initial=0.) for x in (p0, v1, v2, v3, v4)) if k != 'stress' else sc + np.abs(v1).max() * 1e-3
                close(got[q][s], pred[q][s], 2e-8, '%s %s at curvature %g times 1/r' % (k, nm, q), scale=sc + 1e-5 * nat[k] or 1.)
    # and the limit itself
    far, _ = results(case, 1e14, c, nl)
    for k in P:
        close(far[k][0], P[k][0], 1e-8, k + ' for a huge radius', scale=np.abs(P[k][0]).max(initial=0.) + 1e-3 * nat[k] or 1.)
    return curved, ['nl' if nl else 'linear', case['flow']]


def choice(case):
    """Which model is used depends on the radius that the shell has when it is asked, or on the model that was named"""
    c, nl = amplitudes(case), case['nl']
    r = case['r']
    curved, _ = results(case, r, c, nl)
    flat, _ = results(case, None, c, nl)

    def same(A, B, what):
        for k in A:
            close(A[k][0], B[k][0], 1e-12, '%s: %s' % (what, k), scale=np.abs(B[k][0]).max(initial=0.) or 1.)
    same(results(case, r, c, nl, CYL)[0], curved, 'cylindrical model named')
    same(results(case, None, c, nl, PLATE)[0], flat, 'plate model named')
    same(results(case, 0., c, nl)[0], flat, 'radius zero')
    # however large or small the radius is, it is one
    R = case['b'] * 10. ** case['decade']
    got, model = results(case, R, c, nl)
    if model != CYL:
        fail('with a radius of %g times the width the model is %s' % (R / case['b'], model))
    same(got, results(case, R, c, nl, CYL)[0], 'cylindrical model named, radius of %g times the width' % (R / case['b']))
    # the same object with other radii one after the other
    s = mkshell(case, r=None)
    for q in case['path']:
        s.r = {0: None, 1: r, 2: 2 * r, 3: 0.}[q]
        K = dense(s.calc_kC())
        F = curved['kC'][0] if q == 1 else flat['kC'][0] if q != 2 else dense(mkshell(case, r=2 * r).calc_kC())
        close(K, F, 1e-12, 'stiffness after a change of radius', scale=np.abs(F).max() or 1.)
        s.strain(c, np.array([.3 * s.a]), np.array([.6 * s.b]))
        t = mkshell(case, r={0: None, 1: r, 2: 2 * r, 3: None}[q])
        t.calc_kC()
        t.strain(c, np.array([.3 * s.a]), np.array([.6 * s.b]))
        for k in FIELDS:
            close(s.fields[k], t.fields[k], 1e-12, k + ' after a change of radius', scale=np.abs(t.fields[k]).max() or 1.)
    return bool(np.abs(curved['kC'][0] - flat['kC'][0]).max() > 0), [str(len(case['path']))]


# --------------------------------------------------------------------------
# Closed cylinders
# --------------------------------------------------------------------------
def cylinder(case, m, n, free=False, order=None):
    from panels import Shell
    from panels.multidomain import MultiDomain
    N = case['npanels']
    R = case['R']
    h = case['h'] * R
    L = case['L'] * R
    plies = case['plies']
    ps = []
    for i in range(N):
        s = Shell(a=L, b=2 * math.pi * R / N, r=R, stack=plies, plyt=h / len(plies), laminaprop=MATERIALS[case['mat']], rho=case['rho'],
                  m=m, n=n, offset=case['offset'] * h, y0=i * 2 * math.pi * R / N, x0=0.)
        s.out_num_cores = 1
        for e in ('x1', 'x2', 'y1', 'y2'):
            for d in 'uvw':
                setattr(s, e + d, 0. if e[0] == 'x' and d in 'vw' and not free else 1.)
                setattr(s, e + d + 'r', 1.)
        ps.append(s)
    conn = []
    for i in range(N):
        p, q = ps[i], ps[(i + 1) % N]
        c = dict(p1=p, p2=q, func='SSycte', ycte1=p.b, ycte2=0.)
        if i in case['back']:
            c = dict(p1=q, p2=p, func='SSycte', ycte1=0., ycte2=p.b)
        conn.append(c)
    T = [h / len(plies)] * len(plies)
    F = ref.abd(plies, T, [MATERIALS[case['mat']]] * len(plies), case['offset'] * h)
    I = ref.rho_moments(T, [case['rho']] * len(plies), case['offset'] * h)
    if order:
        ps = [ps[i] for i in order]
    return MultiDomain(ps, conn), ps, F, I, L, h


def rigid(case):
    """Moving along the axis and turning about it need no energy; both are seen by the mass matrix"""
    from checks.c13 import motion
    md, ps, F, I, L, h = cylinder(case, 4, 4, free=True)
    K = dense(md.calc_kC(silent=True))
    M = dense(md.calc_kM(silent=True))
    from checks.common import FLAGS
    mass = I[0] * L * 2 * math.pi * case['R']
    for u, v in ((1., 0.), (0., 1.), (.5, -2.)):
        c = np.concatenate([motion(ref.Domain(p.a, p.b, 4, 4, dict.fromkeys(FLAGS, 1.), p.r), u, v, 0.) for p in ps])
        S = np.abs(K) @ np.abs(c)
        close(K @ c, 0 * c, 1e-9, 'forces in a rigid motion of a closed cylinder', scale=S.max())
        close(c @ M @ c, mass * (u * u + v * v), 1e-9, 'kinetic energy of a rigid motion')
    return True, ['%d panels' % case['npanels']]


def rolled(case):
    """The order in which the panels are given only orders the unknowns"""
    N = case['npanels']
    k = case['first'] % N
    order = [(i + k) % N for i in range(N)]
    if case['reverse']:
        order = order[::-1]
    for p in (0, 1):
        A, ps, *_ = cylinder(case, 3, 3)
        B, qs, *_ = cylinder(case, 3, 3, order=order)
    for s in (ps, [qs[order.index(i)] for i in range(N)]):
        for i, p in enumerate(s):
            p.Nxx, p.Nyy = -1. - i, .3 * i
            p.add_point_load(.2 * p.a, .3 * p.b, 1. + i, 2., 3.)
    n = 27
    perm = np.concatenate([np.arange(n) + n * order.index(i) for i in range(N)])
    for nm in ('calc_kC', 'calc_kG', 'calc_kM'):
        a, b = dense(getattr(A, nm)(silent=True)), dense(getattr(B, nm)(silent=True))
        close(b[np.ix_(perm, perm)], a, 1e-12, nm + ' with the panels in another order')
    a, b = np.asarray(A.calc_fext(silent=True)), np.asarray(B.calc_fext(silent=True))
    close(b[perm], a, 1e-12, 'fext with the panels in another order')
    return order != list(range(N)), []


def exact(case):
    """Closed cylinder with classical simple supports: Donnell's solution for axial compression, pressure and vibration"""
    m, n = 8, 9
    md, ps, F, I, L, h = cylinder(case, m, n)
    R, N = case['R'], case['npanels']
    what = case['what']
    best = (np.inf, 0, 0)
    from checks.c08 import navier
    for p in range(1, 13):
        for q in range(0, 25):
            al = p * math.pi / L
            be = q / R
            ir = 1 / R
            if q:
                K, M, G = navier(F, I, math.pi / al, math.pi / be, 1, 1, R, (1., 0.) if what == 'axial' else (0., 1.))
                if what == 'freq':
                    G = M
                val = 1 / eigh(G, K, eigvals_only=True)[-1] if np.abs(G).max() > 0 else np.inf
            else:
                B = np.array([[-al, 0], [0, ir], [0, 0], [0, al * al], [0, 0], [0, 0]])
                K = B.T @ F @ B
                if what == 'freq':
                    G = np.array([[I[0], -I[1] * al], [-I[1] * al, I[0] + I[2] * al * al]])
                else:
                    G = np.diag([0., al * al if what == 'axial' else 0.])
                val = 1 / eigh(G, K, eigvals_only=True)[-1] if np.abs(G).max() > 0 else np.inf
            if what == 'freq':      # torsion, and shear with straight generators
                val = min(val, F[2, 2] * al * al / I[0], F[2, 2] * (q / R)**2 / I[0] if q else np.inf)
            best = min(best, (val, p, q))
    for p in ps:
        if what == 'axial':
            p.Nxx = -1.
        elif what == 'pressure':
            p.Nyy = -1.
    # the compliance of the joints is not part of the exact solution: make them a thousand times stiffer
    K = dense(md.calc_kC(silent=True)) + 999. * dense(md.get_kC_conn())
    G = dense(md.calc_kM(silent=True)) if what == 'freq' else -dense(md.calc_kG(silent=True))
    keep = np.abs(K).sum(axis=0) > 0
    K, G = K[np.ix_(keep, keep)], G[np.ix_(keep, keep)]
    if what == 'freq':
        d = 1 / np.sqrt(np.diag(G))
        ev = eigh(d[:, None] * K * d, d[:, None] * G * d, eigvals_only=True)
        ev = ev[ev > 1e-6 * best[0]]
        got = ev[0]
    else:
        # a point spring along the axis: it stops the rigid motion alone
        P = dense(ps[0].calc_stiffness_point_constraint(0., 0., v=False, w=False, kuvw=F[0, 0]))
        full = np.zeros((keep.size,) * 2)
        full[:P.shape[0], :P.shape[0]] = P
        K = K + full[np.ix_(keep, keep)]
        d = 1 / np.sqrt(np.diag(K))
        mu = eigh(d[:, None] * G * d, d[:, None] * K * d, eigvals_only=True)[-1]
        got = 1 / mu
    val, p, q = best
    resolved = p <= 3 and q <= 1.7 * N
    if got < val * (1 - .01):
        fail('%s: %r is far below the exact value %r (%d axial, %d circumferential)' % (what, got, val, p, q))
    if resolved and got > val * (1.01 + .03 * (p > 2) + .06 * max(0., q / N - 1.)):
        fail('%s: %r, the exact value is %r (%d axial, %d circumferential)' % (what, got, val, p, q))
    return resolved, [what]


C = dict(npanels=st.integers(2, 5), R=num(.2, 3., 2), h=st.sampled_from([.01, .03, .06]), L=num(.6, 4., 2), mat=st.integers(0, 3), rho=num(500., 8000., 0),
         offset=st.one_of(st.just(0.), num(-1., 1., 2)), back=st.lists(st.integers(0, 4), max_size=3, unique=True),
         plies=st.lists(num(-90., 90., 1), min_size=1, max_size=3))
cc = dict(C, plies=st.lists(st.sampled_from([0., 90.]), min_size=1, max_size=3))
S = with_(shells(lo=2, hi=4), N=st.lists(num(-9, 9, 1), min_size=3, max_size=3), c=vec(0), nl=st.booleans(), flow=st.sampled_from('xy'))
RELATIONS = [
    Relation('flatten', S, flatten, 200, 4000, 4),
    Relation('choice', with_(S, path=st.lists(st.integers(0, 3), min_size=2, max_size=5), decade=st.integers(-1, 12)), choice, 120, 2000, 4),
    Relation('rigid', st.fixed_dictionaries(C), rigid, 80, 1500, 2),
    Relation('rolled', st.fixed_dictionaries(dict(C, first=st.integers(0, 4), reverse=st.booleans())), rolled, 80, 1500, 2),
    Relation('exact', st.fixed_dictionaries(dict(cc, npanels=st.integers(3, 4), what=st.sampled_from(['axial', 'pressure', 'freq']))), exact, 30, 600, 8),
]
