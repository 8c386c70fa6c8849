"""C20: hierarchical approximation and Ritz monotonicity"""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import eigh

from checks import c12
from checks.common import (CYL, FLAGS, MATERIALS, PLATE, blockclose, close, dense, expand, fail, laminate, mkshell, num, radius, vec, with_)
from checks.c12 import gridclose
from core import Relation

RULE = 'the larger model has active degrees of freedom that the smaller one does not have'
ASSUMPTIONS = ['eigenvalues are compared to the accuracy of a dense solver: 1e-7 relative plus 1e-11 of the largest one',
               'the flanges of one-dimensional stiffeners have 0 and 90 degree plies (others: finding of C19)']

BITS = st.integers(0, 2**24 - 1).map(lambda v: [float(v >> i & 1) for i in range(24)])
PLY = st.tuples(st.one_of(st.sampled_from([0., 90., 45., -45.]), num(-90, 90, 1)), num(.3, 2, 1), st.integers(0, 3), num(.5, 3, 1)).map(list)


def base(hi=4):
    return st.fixed_dictionaries(dict(
        model=st.sampled_from([PLATE, CYL]), a=num(.4, 3, 2), b=num(.4, 3, 2), r=num(.5, 6, 1),
        mn=st.tuples(st.integers(2, hi), st.integers(2, hi)).map(list), plies=st.lists(PLY, min_size=1, max_size=3),
        thick=st.sampled_from([2e-3, 1e-2, 4e-2]), uniform=st.booleans(), offset=st.sampled_from([0., 0., .5, -1.]),
        flags=st.one_of(BITS, st.just([1.] * 24)), N=st.lists(num(-90, 90, 0), min_size=3, max_size=3)))


MORE = st.tuples(st.integers(0, 3), st.integers(0, 3)).filter(lambda t: sum(t)).map(list)


def keep(m, n, M):
    """Positions, in a series with M terms along x, of the constants of one with m x n terms"""
    return np.array([3 * (j * M + i) + k for j in range(n) for i in range(m) for k in range(3)])


def larger(case):
    return dict(case, mn=[case['mn'][0] + case['more'][0], case['mn'][1] + case['more'][1]])


def shell(case, N=None, **kw):
    N = N or case['N']
    s = mkshell(case, Nxx=N[0], Nyy=N[1], Nxy=N[2], nx=12, ny=12, **kw)
    s.beta, s.gamma, s.flow = 2.5, .7 if case['model'] == CYL else 0., 'x'
    return s


def nest(case):
    """Matrices and loads of the smaller series are parts of those of the larger one"""
    big = larger(case)
    s, S = shell(case), shell(big)
    idx = keep(*case['mn'], big['mn'][0])
    size = 3 * case['mn'][0] * case['mn'][1]
    c = expand(case['c'], size, .02 * laminate(case)[4])
    C = np.zeros(3 * big['mn'][0] * big['mn'][1])
    C[idx] = c
    for p in (s, S):
        p.add_point_load(case['pt'][0] * p.a, case['pt'][1] * p.b, 3., -2., 5.)
        p.add_distr_load_fixed_x(case['pt'][0] * p.a, lambda y: 1.5, lambda y: 2., lambda y: -1.)
    pairs = [('kC', lambda p, c: p.calc_kC(silent=True)), ('kG', lambda p, c: p.calc_kG(silent=True)),
             ('kM', lambda p, c: p.calc_kM(silent=True)), ('kA', lambda p, c: p.calc_kA(silent=True)), ('cA', lambda p, c: p.calc_cA(2.5, silent=True)),
             ('kG of a state', lambda p, c: p.calc_kG(silent=True, c=c, nx=12, ny=12, NLgeom=True)),
             ('kT', lambda p, c: p.calc_kT(silent=True, c=c, nx=12, ny=12))]
    for what, f in pairs:
        A, B = dense(f(s, c)), dense(f(S, C))[np.ix_(idx, idx)]
        blockclose(A, B, 1e-8, '%s of %s and of %s terms' % (what, case['mn'], big['mn']), floor=1e-7 * max(np.abs(A).max(), 1e-30))
    for what, f in (('fext', lambda p, c: p.calc_fext(silent=True)), ('fint', lambda p, c: p.calc_fint(c=c, silent=True, nx=12, ny=12))):
        a, b = f(s, c), f(S, C)[idx]
        for k in range(3):
            close(a[k::3], b[k::3], 1e-8, '%s (%s)' % (what, 'uvw'[k]), scale=max(np.abs(b[k::3]).max(), 1e-4 * np.abs(b).max(), 1e-30))
    # the same displacement everywhere
    xs, ys = [f * case['a'] for f in (0., .3, .7, 1.)], [f * case['b'] for f in (.0, .2, .9, 1.)]
    for name, p, q in ((k, s.uvw(c, xs=xs, ys=ys)[1][k], S.uvw(C, xs=xs, ys=ys)[1][k]) for k in ('u', 'v', 'w', 'phix', 'phiy')):
        close(p, q, 1e-10, name, scale=max(np.abs(q).max(), 1e-20))
    return bool(np.setdiff1d(active(S), idx).size), ['%d+%d x %d+%d' % (case['mn'][0], case['more'][0], case['mn'][1], case['more'][1])]


def grown(case):
    """A convergence study with one object: its numbers of terms are raised between calculations"""
    sizes = [case['mn']]
    for dm, dn in case['steps']:
        sizes.append([sizes[-1][0] + dm, sizes[-1][1] + dn])
    s = mkshell(case)
    (s.Nxx, s.Nyy, s.Nxy), (s.beta, s.gamma, s.flow) = case['N'], (2.5, .7 if case['model'] == CYL else 0., 'x')
    # entries that vanish may come out as rounding
    least = dict(kA=1e-2 * max(case['a'], case['b']), kG=1e-2 * max(np.abs(case['N'])))
    before = None
    for mn in sizes:
        s.m, s.n = mn
        S = shell(dict(case, mn=mn))
        got = {}
        for name, f in (('kC', lambda p: p.calc_kC(silent=True)), ('kM', lambda p: p.calc_kM(silent=True)), ('kG', lambda p: p.calc_kG(silent=True)),
                        ('kA', lambda p: p.calc_kA(silent=True)), ('cA', lambda p: p.calc_cA(2.5, silent=True))):
            whole, B = dense(f(s)), dense(f(S))
            floor = 1e-7 * max(np.abs(B).max(), least.get(name, 1e-30))
            blockclose(whole, B, 1e-8, '%s of the object whose terms are raised to %s' % (name, mn), floor=floor)
            got[name] = whole
            if name != 'cA':
                # a part of the domain which is all of it: integrated
                s.x1, s.x2, s.y1, s.y2 = (0., s.a, -1, -1) if case['along'] == 'x' else (-1, -1, 0., s.b) if case['along'] == 'y' else (0., s.a, 0., s.b)
                blockclose(dense(f(s)), B, 1e-8, 'integrated %s of the object whose terms are raised to %s' % (name, mn), floor=floor)
                s.x1 = s.x2 = s.y1 = s.y2 = -1
        if before:
            idx = keep(*before[0], mn[0])
            for name, A in before[1].items():
                B = got[name][np.ix_(idx, idx)]
                blockclose(A, B, 1e-8, '%s of %s and of %s terms' % (name, before[0], mn), floor=1e-7 * max(np.abs(A).max(), least.get(name, 1e-30)))
        before = mn, got
    return max(sizes[-1][k] - 2 * sizes[0][k] for k in (0, 1)) > 0, ['-'.join('%dx%d' % tuple(v) for v in sizes)]


def active(p):
    M = dense(p.calc_kM(silent=True))
    return np.flatnonzero(np.abs(M).max(axis=1) > 0)


def modes(K, M):
    """Squared frequencies, in ascending order, of the active constants"""
    K, M = dense(K), dense(M)
    act = np.flatnonzero(np.abs(M).max(axis=1) > 0)
    if not act.size:
        return np.zeros(0)
    K, M = K[np.ix_(act, act)], M[np.ix_(act, act)]
    d = 1 / np.sqrt(np.diag(M))
    return eigh(d[:, None] * K * d, d[:, None] * M * d, eigvals_only=True)


def notabove(low, high, what, nested=True):
    """Each eigenvalue of the model with more freedom is at most that of the other.  nested: the other one is a
    restriction of it, so that the largest eigenvalues do not drop"""
    if not len(high):
        return
    if len(low) < len(high):
        fail('%s: %d modes, fewer than the %d of the smaller model' % (what, len(low), len(high)))
    tol = 1e-11 * max(abs(low).max(), abs(high).max())
    k = len(high)
    bad = np.flatnonzero(low[:k] > high + 1e-7 * abs(high) + tol)
    if bad.size:
        fail('%s: mode %d rises from %r to %r' % (what, bad[0], high[bad[0]], low[bad[0]]))
    if not nested:
        return
    bad = np.flatnonzero(low[-k:] < high - 1e-7 * abs(high) - tol)
    if bad.size:
        fail('%s: the model with more freedom lost mode %d: %r, it was %r' % (what, bad[0] - k, low[bad[0] - k], high[bad[0]]))


def loadmodes(K, G, M):
    """Inverse load factors: eigenvalues of -kG over kC, with kC made definite by a little mass"""
    K, G, M = dense(K), dense(G), dense(M)
    return modes(-G, K + M)


def terms(case):
    """Frequencies and buckling loads do not rise when terms are added"""
    big = larger(case)
    s, S = shell(case), shell(big)
    kw = dict(silent=True)
    lo, hi = modes(S.calc_kC(**kw), S.calc_kM(**kw)), modes(s.calc_kC(**kw), s.calc_kM(**kw))
    notabove(lo, hi, 'frequencies with %s and %s terms' % (case['mn'], big['mn']))
    # a spring on every point keeps supports out of the question: mass scaled to the stiffness
    k = max(np.trace(dense(s.calc_kC(**kw))), 1e-300) / max(np.trace(dense(s.calc_kM(**kw))), 1e-300) * 1e-4
    lo, hi = (np.sort(loadmodes(p.calc_kC(**kw), p.calc_kG(**kw), k * dense(p.calc_kM(**kw)))) for p in (S, s))
    notabove(lo, hi, 'load factors with %s and %s terms' % (case['mn'], big['mn']))
    return len(active(S)) > len(active(s)), ['terms']


def freer(case):
    """Releasing edge freedoms does not raise a frequency, and leaves the entries of the other constants alone"""
    fl = [max(a, b) for a, b in zip(case['flags'], case['free'])]
    rel = dict(case, flags=fl)
    s, S = shell(case), shell(rel)
    kw = dict(silent=True)
    act = active(s)
    for what in ('kC', 'kM', 'kG', 'kA'):
        A, B = (dense(getattr(p, 'calc_' + what)(**kw)) for p in (s, S))
        d = np.ones(len(A), bool)
        d[act] = False
        if np.abs(A[d]).max(initial=0) > 0 or np.abs(A[:, d]).max(initial=0) > 0:
            fail('%s: a constant without mass has stiffness' % what)
        D = np.zeros_like(A)
        D[np.ix_(act, act)] = B[np.ix_(act, act)]
        blockclose(A, D, 1e-10, '%s: releasing an edge changed the entries of constants that were free' % what, floor=1e-8 * np.abs(D).max())
    notabove(modes(S.calc_kC(**kw), S.calc_kM(**kw)), modes(s.calc_kC(**kw), s.calc_kM(**kw)), 'releasing edges')
    # any value of a flag other than zero is the same freedom
    sc = shell(dict(rel, flags=[f * g for f, g in zip(fl, case['scales'])]))
    lo, hi = modes(sc.calc_kC(**kw), sc.calc_kM(**kw)), modes(S.calc_kC(**kw), S.calc_kM(**kw))
    close(lo, hi, 1e-9, 'frequencies with scaled flags')
    low = hi < hi.max(initial=0) * 1e-4
    close(lo[low], hi[low], 1e-7, 'frequencies with scaled flags', scale=max(hi[low].max(initial=0), 1e-5 * hi.max(initial=0), 1e-300))
    return len(active(S)) > len(act), ['%d released' % sum(a != b for a, b in zip(fl, case['flags']))]


def assembly(case):
    """Matrices, loads and modes of an assembly with fewer terms"""
    ps, shs, md, links, off = c12.mk(case)
    big = dict(case, panels=[dict(p, mn=[p['mn'][0] + k[0], p['mn'][1] + k[1]]) for p, k in zip(case['panels'], case['add'])])
    PS, SHS, MD, LINKS, OFF = c12.mk(big)
    idx = np.concatenate([OFF[i] + keep(*p['mn'], P['mn'][0]) for i, (p, P) in enumerate(zip(ps, PS))])
    kw = dict(silent=True)
    K, k = dense(MD.calc_kC(**kw)), dense(md.calc_kC(**kw))
    gridclose(k, K[np.ix_(idx, idx)], off, 1e-8, 'kC of an assembly with fewer terms')
    kC, kc = dense(MD.get_kC_conn()), dense(md.get_kC_conn())
    gridclose(kc, kC[np.ix_(idx, idx)], off, 1e-8, 'connections of an assembly with fewer terms')
    M, m_ = dense(MD.calc_kM(**kw)), dense(md.calc_kM(**kw))
    gridclose(m_, M[np.ix_(idx, idx)], off, 1e-8, 'kM of an assembly with fewer terms')
    notabove(modes(K, M), modes(k, m_), 'frequencies of the assembly with more terms')
    # without one of the connections
    del md.conn[case['drop'] % len(md.conn)]
    k2 = dense(md.calc_kC(**kw))
    notabove(modes(k2, m_), modes(k, m_), 'frequencies without a connection', False)
    w = np.linalg.eigvalsh(k - k2)
    if w[0] < -1e-9 * w[-1] - 1e-13 * np.abs(k).max():
        fail('a connection has negative energy: %r (largest %r)' % (w[0], w[-1]))
    return len(OFF) > 0 and OFF[-1] > off[-1], c12.label(case)


def stiffened(case):
    """A stiffener never makes the skin more compliant"""
    from checks import c19
    # the beam model of the flange of a 1D stiffener has no twisting stiffness (finding torsion-without-shear-modulus of C19)
    # and is therefore indefinite with plies that couple extension and twist
    case = dict(case, stiffs=[dict(q, flange=dict(q['flange'], stack=[0. if abs(t) < 45 else 90. for t in q['flange']['stack']]))
                              if q['kind'] == '1d' else q for q in case['stiffs']])
    bay, dom, panels, stiffs, flanges, off = c19.mk(case)
    bare = c19.mk(dict(case, stiffs=[]))[0]
    K, K0 = dense(bay.calc_kC(silent=True)), dense(bare.calc_kC(silent=True))
    M, M0 = dense(bay.calc_kM(silent=True)), dense(bare.calc_kM(silent=True))
    n = dom.size
    for A, B, what in ((K, K0, 'stiffness'), (M, M0, 'mass')):
        act = np.flatnonzero(np.diag(A) > 0)
        d = np.diag(B)
        if np.any((np.diag(A)[:n] == 0) & (d > 0)):
            fail('%s: a stiffener removes it from a constant of the skin' % what)
        # Schur complement on the skin, minus the bare skin, has no negative energy
        a, b = act[act < n], act[act >= n]
        s = 1 / np.sqrt(np.diag(A)[act])
        A2 = s[:, None] * A[np.ix_(act, act)] * s
        na = len(a)
        S = A2[:na, :na]
        if len(b):
            S = S - A2[:na, na:] @ np.linalg.lstsq(A2[na:, na:], A2[na:, :na], rcond=1e-13)[0]
        w = np.linalg.eigvalsh(S - s[:na, None] * B[np.ix_(a, a)] * s[:na])
        if len(w) and w[0] < -1e-8:
            fail('%s: a stiffener has negative energy, %r relative to the stiffened skin' % (what, w[0]))
    return bool(stiffs), c19.label(stiffs, panels)


from checks.c19 import BAY  # noqa: E402

ONES = st.integers(0, 2**24 - 1).map(lambda v: [float(v >> i & 1) for i in range(24)])
SC = st.lists(st.sampled_from([1., .5, 2., -1., 3.]), min_size=3, max_size=5).map(lambda v: (v * 24)[:24])
pt = st.tuples(num(0, 1, 2), num(0, 1, 2)).map(list)
small = st.fixed_dictionaries(dict(
    model=st.sampled_from([PLATE, CYL]), a=num(.4, 3, 2), b=num(.4, 3, 2), r=num(.5, 6, 1),
    mn=st.tuples(st.integers(2, 3), st.integers(2, 3)).map(list), plies=st.lists(PLY, min_size=1, max_size=2),
    thick=st.sampled_from([1e-2, 4e-2]), uniform=st.booleans(), offset=st.sampled_from([0., 0., .5]),
    flags=st.one_of(BITS, st.just([1.] * 24)), N=st.just([0., 0., 0.]), loads=st.just([]), group=st.just('skin')))
ASSY = st.fixed_dictionaries(dict(panels=st.lists(small, min_size=2, max_size=3), links=st.lists(c12.link, min_size=1, max_size=3),
                                  add=st.lists(MORE, min_size=3, max_size=3), drop=st.integers(0, 2)))

RELATIONS = [
    Relation('nest', with_(base(), more=MORE, c=vec(0), pt=pt), nest, 120, 2500, 8),
    Relation('grown', with_(base(), steps=st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).filter(lambda t: sum(t)).map(list), min_size=1, max_size=2),
                            along=st.sampled_from(['x', 'y', 'xy'])), grown, 30, 600, 8),
    Relation('terms', with_(base(5), more=MORE), terms, 150, 4000, 8),
    Relation('freer', with_(base(5), free=ONES, scales=SC), freer, 150, 4000, 8),
    Relation('assembly', ASSY, assembly, 100, 2000, 8),
    Relation('stiffened', BAY, stiffened, 80, 1500, 8),
]
