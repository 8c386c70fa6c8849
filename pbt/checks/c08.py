"""C08: exact solutions of plates and shells"""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import eigh

import ref
from checks.common import CYL, FLAGS, MATERIALS, PLATE, close, dense, fail, num, terms, with_
from core import Relation

RULE = 'the exact solution has few enough waves for its accuracy to be demanded, and not only the bound'
ASSUMPTIONS = ['Donnell / von Karman kinematics and classical lamination theory with rotary inertia are the exact theory meant',
               'the reference for plates with two simply supported edges is a one-dimensional Ritz solution with 22 polynomials']

PI = math.pi
SERIES = 11


def flags(**kw):
    d = {k: 1. for k in FLAGS}
    d.update(kw)
    return d


SS1 = flags(x1v=0, x2v=0, x1w=0, x2w=0, y1u=0, y2u=0, y1w=0, y2w=0)      # u, v free along the normal
SS2 = flags(x1u=0, x2u=0, x1w=0, x2w=0, y1v=0, y2v=0, y1w=0, y2w=0)      # u, v free along the tangent


def shell(case, plies, fl, r=None, offset=0., m=SERIES, n=SERIES):
    from panels import Shell
    h = case['h'] * min(case['a'], case['b'])
    plyt = h / len(plies)
    prop = MATERIALS[case['mat']]
    s = Shell(a=case['a'], b=case['b'], r=r, stack=list(plies), plyt=plyt, laminaprop=prop, rho=case['rho'], m=m, n=n,
              offset=offset * h)
    for k, v in fl.items():
        setattr(s, k, float(v))
    s.out_num_cores = 1
    T = [plyt] * len(plies)
    return s, ref.abd(plies, T, [prop] * len(plies), offset * h), ref.rho_moments(T, [case['rho']] * len(plies), offset * h)


def reduce(*mats):
    ms = [dense(M) for M in mats]
    keep = np.abs(ms[0]).sum(axis=0) > 0
    return [M[np.ix_(keep, keep)] for M in ms]


def lowest(K, M):
    """Smallest positive value of lambda such that K v = lambda M v, K positive definite"""
    K, M = reduce(K, M)
    d = 1 / np.sqrt(np.diag(K))
    mu = eigh(d[:, None] * M * d, d[:, None] * K * d, eigvals_only=True)
    return 1 / mu[-1]


def navier(F, I, a, b, p, q, r, N=None):
    """(K, M, G) of the exact solution with p and q half waves and all edges simply supported (SS1)"""
    al, be = p * PI / a, q * PI / b
    ir = 1 / r if r else 0.
    # amplitudes of (exx, eyy, gxy, kxx, kyy, kxy): the shear terms go with cos cos, the others with sin sin
    B = np.array([[-al, 0, 0], [0, -be, ir], [be, al, 0], [0, 0, al * al], [0, 0, be * be], [0, 0, -2 * al * be]])
    K = B.T @ F @ B
    M = np.array([[I[0], 0, -I[1] * al], [0, I[0], -I[1] * be], [-I[1] * al, -I[1] * be, I[0] + I[2] * (al * al + be * be)]])
    G = np.zeros((3, 3))
    if N:
        G[2, 2] = N[0] * al * al + N[1] * be * be
    return K, M, G


def first(K, G):
    mu = eigh(G, K, eigvals_only=True)[-1]
    return 1 / mu if mu > 0 else np.inf


def verdict(got, exact, waves, tol, what, info):
    if not np.isfinite(got) or got < exact * (1 - 1e-7):
        fail('%s: %r is below the exact value %r (%s)' % (what, got, exact, info))
    if waves <= 3 and got > exact * (1 + tol):
        fail('%s: %r, the exact value is %r (%s)' % (what, got, exact, info))
    return waves <= 3


def load(case):
    kx, ky = case['N']
    return (kx, ky) if kx + ky > 0.05 else (1., 0.)


def crossply(case):
    """Any laminate of plies at 0 and 90 degrees, with offset, flat or curved"""
    r = case['r'] * case['b'] if case['curved'] else None
    s, F, I = shell(case, case['plies'], SS1, r, case['offset'])
    kx, ky = load(case)
    best = {'f': (np.inf, 9), 'b': (np.inf, 9)}
    for p in range(1, 16):
        for q in range(1, 16):
            K, M, G = navier(F, I, case['a'], case['b'], p, q, r, (kx, ky))
            best['f'] = min(best['f'], (first(K, M), max(p, q)))
            best['b'] = min(best['b'], (first(K, G), max(p, q)))
    kC = s.calc_kC()
    ok = False
    info = 'curved' if r else 'flat'
    if case['what'] == 'f':
        ok = verdict(lowest(kC, s.calc_kM()), best['f'][0], best['f'][1], 2e-4, 'frequency squared', info)
    else:
        s.Nxx, s.Nyy = -kx, -ky
        ok = verdict(lowest(kC, -dense(s.calc_kG())), best['b'][0], best['b'][1], 2e-4, 'buckling load', info)
    return ok, [case['what'], info]


def angleply(case):
    """Antisymmetric angle plies with the edges free to slide along themselves"""
    half = [t for t in case['angles']]
    plies = half + [-t for t in half[::-1]]
    s, F, I = shell(case, plies, SS2)
    kx, ky = load(case)
    best = (np.inf, 9)
    for p in range(1, 16):
        for q in range(1, 16):
            al, be = p * PI / case['a'], q * PI / case['b']
            # u = U sin cos, v = V cos sin, w = W sin sin: exx, eyy, kxy go with cos cos, the others with sin sin
            B = np.array([[al, 0, 0], [0, be, 0], [-be, -al, 0], [0, 0, al * al], [0, 0, be * be], [0, 0, -2 * al * be]])
            K = B.T @ F @ B
            if case['what'] == 'f':
                G = np.diag([I[0], I[0], I[0] + I[2] * (al * al + be * be)])
            else:
                G = np.diag([0, 0, kx * al * al + ky * be * be])
            best = min(best, (first(K, G), max(p, q)))
    kC = s.calc_kC()
    if case['what'] == 'f':
        G = s.calc_kM()
    else:
        s.Nxx, s.Nyy = -kx, -ky
        G = -dense(s.calc_kG())
    return verdict(lowest(kC, G), best[0], best[1], 2e-4, 'frequency squared' if case['what'] == 'f' else 'buckling load',
                   'angle plies'), [case['what']]


SUPPORT = {'S': (0., 1.), 'C': (0., 0.), 'F': (1., 1.)}


def oned(N, fl, F, L, be, k, what, I):
    """One-dimensional Ritz solution for w = f(s) sin(be t); k: 1 if s is x, else 2"""
    D1, D2 = (F[3, 3], F[4, 4]) if k == 1 else (F[4, 4], F[3, 3])
    D12, D66 = F[3, 4], F[5, 5]
    x, w = ref.gauss(N + 2)
    B = [np.array([ref.basis(N, t, d, fl) for t in x]) * (2 / L)**d for d in range(3)]
    W = (w * L / 2)[:, None]
    f, f1, f2 = B
    K = D1 * f2.T @ (W * f2) + D2 * be**4 * f.T @ (W * f) - D12 * be**2 * (f.T @ (W * f2) + f2.T @ (W * f)) \
        + 4 * D66 * be**2 * f1.T @ (W * f1)
    if what[0] == 'f':
        G = (I[0] + I[2] * be**2) * f.T @ (W * f) + I[2] * f1.T @ (W * f1)
    else:
        G = what[1] * f1.T @ (W * f1) + what[2] * be**2 * f.T @ (W * f)
    keep = np.abs(K).sum(axis=0) > 0
    K, G = K[np.ix_(keep, keep)], G[np.ix_(keep, keep)]
    d = 1 / np.sqrt(np.diag(K))
    mu = eigh(d[:, None] * G * d, d[:, None] * K * d, eigvals_only=True)[-1]
    return 1 / mu if mu > 0 else np.inf


def levy(case):
    """Two opposite edges simply supported, the others simply supported, clamped or free; symmetric cross plies"""
    half = case['plies']
    plies = half + half[::-1]
    alongx = case['alongx']        # the direction with the arbitrary supports
    e1, e2 = (SUPPORT[t] for t in case['edges'])
    fl = {k: 0. for k in FLAGS}
    d, o = ('x', 'y') if alongx else ('y', 'x')
    fl.update({o + '1wr': 1., o + '2wr': 1., d + '1w': e1[0], d + '1wr': e1[1], d + '2w': e2[0], d + '2wr': e2[1]})
    s, F, I = shell(case, plies, fl)
    kx, ky = load(case)
    L, T = (case['a'], case['b']) if alongx else (case['b'], case['a'])
    what = ('f',) if case['what'] == 'f' else ('b',) + ((kx, ky) if alongx else (ky, kx))
    one = e1 + e2
    best = (np.inf, 9)
    coarse = np.inf
    for q in range(1, 13):
        best = min(best, (oned(22, one, F, L, q * PI / T, 1 if alongx else 2, what, I), q))
    coarse = oned(SERIES, one, F, L, best[1] * PI / T, 1 if alongx else 2, what, I)
    kC = s.calc_kC()
    if what[0] == 'f':
        G = s.calc_kM()
    else:
        s.Nxx, s.Nyy = -kx, -ky
        G = -dense(s.calc_kG())
    loose = coarse / best[0] - 1
    return verdict(lowest(kC, G), best[0], best[1] if loose < 1e-3 else 9, 2e-4 + 3 * loose,
                   'frequency squared' if what[0] == 'f' else 'buckling load', case['edges']), [case['what'], case['edges']]


def static(case):
    """Deflection of a simply supported cross-ply plate or panel under a force normal to it: below the exact one, close to it"""
    r = case['r'] * case['b'] if case['curved'] else None
    s, F, I = shell(case, case['plies'], SS1, r, case['offset'])
    a, b = case['a'], case['b']
    x, y = case['at'][0] * a, case['at'][1] * b
    P = 1.
    P_, Q_ = np.meshgrid(np.arange(1, 301), np.arange(1, 301), indexing='ij')
    al, be = P_ * PI / a, Q_ * PI / b
    ir = 1 / r if r else 0.
    z = np.zeros_like(al)
    B = np.array([[-al, z, z], [z, -be, z + ir], [be, al, z], [z, z, al * al], [z, z, be * be], [z, z, -2 * al * be]])
    K = np.einsum('kipq,kl,ljpq->pqij', B, F, B)
    # condensation of the in-plane amplitudes
    det = K[..., 0, 0] * K[..., 1, 1] - K[..., 0, 1]**2
    k02, k12 = K[..., 0, 2], K[..., 1, 2]
    kw = K[..., 2, 2] - (K[..., 1, 1] * k02**2 - 2 * K[..., 0, 1] * k02 * k12 + K[..., 0, 0] * k12**2) / det
    sn = np.sin(al * x) * np.sin(be * y)
    terms = 4 * P / (a * b) * sn**2 / kw
    q = case['line']
    if q:
        # force per unit length P sin(q pi y / b) along x = cte
        terms = np.zeros_like(terms)
        terms[:, q - 1] = 2 * P / a * np.sin(al * x)[:, q - 1]**2 / kw[:, q - 1] * np.sin(q * PI * y / b)
        s.add_distr_load_fixed_x(x, None, None, lambda t: P * np.sin(q * PI * t / b))
    else:
        s.add_point_load(x, y, 0., 0., P)
    exact = terms.sum()
    f = np.asarray(s.calc_fext())
    kC = dense(s.calc_kC())
    keep = np.abs(kC).sum(axis=0) > 0
    c = np.zeros(len(f))
    Kr = kC[np.ix_(keep, keep)]
    d = 1 / np.sqrt(np.diag(Kr))
    c[keep] = d * np.linalg.solve(d[:, None] * Kr * d, d * f[keep])
    w = s.uvw(c, np.array([x]), np.array([y]))[1]['w'][0]
    if q:
        work, wx = f @ c, 2 * P**2 / a * b / 2 * (np.sin(al * x)[:, q - 1]**2 / kw[:, q - 1])
        exw = wx.sum()
    else:
        work, wx, exw = f @ c, terms, exact
        close(w, work, 1e-7, 'deflection at the load and work of the load')
    if work > exw * (1 + 1e-4):
        fail('work of the load %r exceeds the exact one %r' % (work, exw))
    few = bool((wx[:6].sum() if q else wx[:6, :6].sum()) > .985 * exw)
    if few and work < exw * (1 - .06):
        fail('work of the load %r, the exact one is %r' % (work, exw))
    if q and few:
        close(w, exact, .06, 'deflection', scale=2 * exw / (P * b))
    return few, ['curved' if r else 'flat', 'line %d' % q if q else 'point']


def patch(case):
    """A free plate under uniform edge tractions or corner forces: constant strains, for any laminate"""
    from hypothesis import reject  # noqa: F401
    s, F, I = shell(case, case['lam'], flags(), None, case['offset'], *case['mn'])
    a, b = case['a'], case['b']
    N = np.zeros(6)
    tw = case['twist']
    if tw:
        N[5] = tw
        # twisting moment: corner forces of twice the moment per unit length, alternating
        for x, y, sg in ((0, 0, -1), (a, 0, 1), (0, b, 1), (a, b, -1)):
            s.add_point_load(x, y, 0., 0., 2 * sg * tw)
    nx, ny, nxy = case['trac']
    N[:3] = nx, ny, nxy
    cte = lambda v: (lambda t: v)
    if any(case['trac']):
        s.add_distr_load_fixed_x(a, cte(nx), cte(nxy), None)
        s.add_distr_load_fixed_x(0, cte(-nx), cte(-nxy), None)
        s.add_distr_load_fixed_y(b, cte(nxy), cte(ny), None, cte=False)
        s.add_distr_load_fixed_y(0, cte(-nxy), cte(-ny), None, cte=False)
    kC = dense(s.calc_kC())
    km = F[0, 0]
    kb = F[3, 3] / (a * b)
    kC = kC + dense(s.calc_stiffness_point_constraint(0, 0, w=False, kuvw=km) + s.calc_stiffness_point_constraint(a, 0, u=False, w=False, kuvw=km)
                    + s.calc_stiffness_point_constraint(0, 0, u=False, v=False, kuvw=kb)
                    + s.calc_stiffness_point_constraint(a, 0, u=False, v=False, kuvw=kb)
                    + s.calc_stiffness_point_constraint(0, b, u=False, v=False, kuvw=kb))
    f = np.asarray(s.calc_fext())
    d = 1 / np.sqrt(np.diag(kC))
    c = d * np.linalg.solve(d[:, None] * kC * d, d * f)
    e = np.linalg.solve(F, N)
    h = case['h'] * min(a, b)
    xs = np.array([t[0] * a for t in case['pts']])
    ys = np.array([t[1] * b for t in case['pts']])
    _, fld = s.strain(c, xs, ys, NLgeom=False)
    size = max(np.abs(e[:3]).max(), np.abs(e[3:]).max() * h)
    for k, (nm, sc) in enumerate((('exx', size), ('eyy', size), ('gxy', size), ('kxx', size / h), ('kyy', size / h), ('kxy', size / h))):
        close(fld[nm], np.full(len(xs), e[k]), 1e-5, 'constant strain ' + nm, scale=sc)
    s.stress(c, xs=xs, ys=ys, NLgeom=False)
    sN = max(np.abs(N[:3]).max(), np.abs(N[3:]).max() / h)
    for k, (nm, sc) in enumerate((('Nxx', sN), ('Nyy', sN), ('Nxy', sN), ('Mxx', sN * h), ('Myy', sN * h), ('Mxy', sN * h))):
        close(s.fields[nm], np.full(len(xs), N[k]), 1e-5, 'constant resultant ' + nm, scale=sc)
    return bool(any(case['trac']) or tw), ['twist' if tw else 'traction']


base = dict(a=num(.4, 2., 3), b=num(.4, 2., 3), h=st.sampled_from([2e-3, 1e-2, 3e-2]), mat=st.integers(0, 3), rho=num(500., 8000., 0))
ply = st.lists(st.sampled_from([0., 90.]), min_size=1, max_size=4)
N = st.tuples(st.one_of(st.just(1.), num(0., 1., 2)), num(0., 1., 2)).map(list)
what = st.sampled_from(['f', 'b'])


def D(**kw):
    return st.fixed_dictionaries(dict(base, **kw))


ALSO = [('c17', 'exact', 30, 600)]
RELATIONS = [
    Relation('cross_ply', D(plies=ply, r=num(1.5, 30., 2), curved=st.booleans(), offset=st.one_of(st.just(0.), num(-1., 1., 2)), N=N,
                            what=what), crossply, 200, 3000, 4),
    Relation('angle_ply', D(angles=st.lists(num(0., 90., 1), min_size=1, max_size=3), N=N, what=what), angleply, 150, 2000, 3),
    Relation('two_edges', D(plies=ply, alongx=st.booleans(), edges=st.tuples(st.sampled_from('SCF'), st.sampled_from('SCF')).map(''.join),
                            N=N, what=what), levy, 200, 3000, 4),
    Relation('deflection', D(plies=ply, r=num(1.5, 30., 2), curved=st.booleans(), offset=st.one_of(st.just(0.), num(-1., 1., 2)),
                             at=st.tuples(num(.1, .9, 3), num(.1, .9, 3)).map(list), line=st.integers(0, 2)), static, 200, 2000, 3),
    Relation('patch', D(lam=st.lists(num(-90., 90., 1), min_size=1, max_size=4), offset=st.one_of(st.just(0.), num(-1., 1., 2)),
                        mn=terms(4, 6), trac=st.lists(num(-3., 3., 2), min_size=3, max_size=3), twist=st.one_of(st.just(0.), num(-2., 2., 2)),
                        pts=st.lists(st.tuples(num(0., 1., 3), num(0., 1., 3)).map(list), min_size=1, max_size=4)), patch, 250, 4000, 4),
]
