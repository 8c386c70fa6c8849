"""C23: what is incomplete or inconsistent is rejected, and leaves nothing behind; equivalent definitions give equal results"""
import numpy as np
from hypothesis import strategies as st

from checks.c20 import PLY
from checks.common import CYL, FLAGS, MATERIALS, PLATE, close, dense, expand, fail, laminate, mkshell, num, with_
from core import Relation

RULE = 'the object is used, repaired and calculated after the rejection / the two definitions differ in form'
ASSUMPTIONS = ['the type of the exception is the one that the code documents (ValueError, TypeError or RuntimeError)',
               'the length of the data given per ply is checked by the package of laminates, not here']
TOL = 1e-12

BITS = st.integers(0, 2**24 - 1).map(lambda v: [float(v >> i & 1) for i in range(24)])
SMALL = st.fixed_dictionaries(dict(
    model=st.sampled_from([PLATE, CYL]), a=num(.4, 3, 2), b=num(.4, 3, 2), r=num(.5, 6, 1),
    mn=st.tuples(st.integers(1, 4), st.integers(1, 4)).map(list), plies=st.lists(PLY, min_size=1, max_size=3),
    thick=st.sampled_from([2e-3, 1e-2, 4e-2]), uniform=st.booleans(), offset=st.sampled_from([0., .5, -1.]),
    flags=st.one_of(BITS, st.just([1.] * 24)), c=st.lists(st.integers(-9, 9), min_size=3, max_size=8)))


def rejected(fn, types, what):
    """The call must raise one of the types, nothing else"""
    try:
        fn()
    except types:
        return
    except Exception as e:
        fail('%s: raised %s (%s), expected %s' % (what, type(e).__name__, str(e)[:90], '/'.join(t.__name__ for t in types)))
    fail('%s: accepted' % what)


VE, TE, RE = (ValueError,), (TypeError,), (RuntimeError,)


def equal(A, B, what, tol=TOL):
    """Each entry of the two dictionaries (or arrays)"""
    if not isinstance(A, dict):
        A, B = {'': A}, {'': B}
    if set(A) != set(B):
        fail('%s: %s and %s' % (what, sorted(A), sorted(B)))
    for k in A:
        a, b = np.asarray(dense(A[k]), float), np.asarray(dense(B[k]), float)
        if a.shape != b.shape:
            fail('%s %s: shape %s and %s' % (what, k, a.shape, b.shape))
        close(a, b, tol, '%s %s' % (what, k), scale=np.abs(b).max(initial=0.) or 1.)


# --------------------------------------------------------------------------
# Displacement vectors
# --------------------------------------------------------------------------
def wrong(c, how):
    """A vector that must be rejected, and the exception for functions that do / do not convert what they are given"""
    n = c.size
    if how == 'list':
        return list(c), TE, None
    if how == 'tuple':
        return tuple(c), TE, None
    if how == 'number':
        return 3., TE, VE
    if how == 'column':
        return c.reshape(-1, 1), VE, VE
    if how == 'row':
        return c.reshape(1, -1), VE, VE
    if how == 'matrix':
        return c.reshape(3, -1), VE, VE
    if how == 'point':
        return np.array(1.), VE, VE
    if how == 'empty':
        return c[:0], VE, VE
    return (c[:n + how] if how < 0 else np.concatenate([c, np.ones(how)])), VE, VE


HOW = st.one_of(st.sampled_from(['list', 'tuple', 'number', 'column', 'row', 'matrix', 'point', 'empty']),
                st.sampled_from([-1, 1, -3, 3, -2, 2, 30]))
FORM = st.sampled_from(['f4', 'i4', 'strided', 'reversed', 'fortran'])


def form(c, how):
    """The same numbers stored in another way (they are small integers)"""
    if how in ('f4', 'i4'):
        return c.astype(how)
    if how == 'strided':
        return np.stack([c, -c], 1).ravel()[::2]
    if how == 'reversed':
        return c[::-1].copy()[::-1]
    return np.asfortranarray(np.stack([c, c * 2]))[0]


# the functions of one domain; True: the vector is converted
PT = (np.array([.1, .6]), np.array([.9, .3]))


def fields(s, f, c, **kw):
    mesh, out = getattr(s, f)(c, xs=PT[0] * s.a, ys=PT[1] * s.b, **kw)
    keys = ('u', 'v', 'w', 'phix', 'phiy') if f == 'uvw' else ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
    if f == 'stress':
        keys += ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')
    return {k: np.array(out[k]) for k in keys}


ONE = {
    'kC': (lambda s, c: s.calc_kC(c=c, silent=True), False),
    'kC nonlinear': (lambda s, c: s.calc_kC(c=c, NLgeom=True, silent=True), False),
    'kC of a constant state': (lambda s, c: s.calc_kC(c_cte=c, silent=True), False),
    'kG': (lambda s, c: s.calc_kG(c=c, silent=True), False),
    'kG nonlinear': (lambda s, c: s.calc_kG(c=c, NLgeom=True, silent=True), False),
    'kT': (lambda s, c: s.calc_kT(c=c, silent=True), False),
    'fint': (lambda s, c: s.calc_fint(c, silent=True), True),
    'uvw': (lambda s, c: fields(s, 'uvw', c), True),
    'strain': (lambda s, c: fields(s, 'strain', c), True),
    'stress': (lambda s, c: fields(s, 'stress', c), True),
}
MANY = {
    'kC': (lambda d, c: d.calc_kC(c=c, silent=True), False),
    'kG': (lambda d, c: d.calc_kG(c=c, silent=True), False),
    'kT': (lambda d, c: d.calc_kT(c=c, silent=True), False),
    'fint': (lambda d, c: d.calc_fint(c, silent=True), False),
    'uvw': (lambda d, c: flat(d.uvw(c, 'g', gridx=3, gridy=4), ('u', 'v', 'w', 'phix', 'phiy')), True),
    'strain': (lambda d, c: flat(d.strain(c, 'g', gridx=3, gridy=4), ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')), True),
    'stress': (lambda d, c: flat(d.stress(c, 'g', gridx=3, gridy=4), ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')), True),
    'uvw at points': (lambda d, c: flat(d.uvw_gauss_points(c, 'g', x_gauss=3, y_gauss=4), ('u', 'v', 'w')), True),
    'strain at points': (lambda d, c: flat(d.strain_gauss_points(c, 'g', x_gauss=3, y_gauss=4), ('exx', 'gxy', 'kyy')), True),
    'stress at points': (lambda d, c: flat(d.stress_gauss_points(c, 'g', x_gauss=3, y_gauss=4), ('Nxx', 'Nxy', 'Myy')), True),
}


def flat(res, keys):
    return {k: np.concatenate([np.ravel(v) for v in res[k]]) for k in keys}


def judge(table, name, obj, fresh, c, case):
    fn, converts = table[name]
    bad, types, conv = wrong(c, case['how'])
    types = conv if converts else types
    if types is not None:
        rejected(lambda: fn(obj, bad), types, '%s of a %s vector' % (name, case['how']))
    got = fn(obj, form(c, case['form']))
    equal(got, fn(fresh, c), '%s with the vector stored as %s, after a rejection' % (name, case['form']), 1e-11)
    return types is not None


def vector(case):
    s, f = mkshell(case, nx=5, ny=5), mkshell(case, nx=5, ny=5)
    c = np.round(expand(case['c'], 3 * s.m * s.n, 30.))
    scale = c / 1.
    did = judge(ONE, case['fn'], s, f, scale, case)
    return did, [case['fn']]


def many(case):
    from panels.multidomain import MultiDomain
    out = []
    for k in range(2):
        ps = [mkshell(dict(case, mn=mn), nx=5, ny=5, group='g') for mn in (case['mn'], case['mn2'])]
        conn = [dict(p1=ps[0], p2=ps[1], func='SSxcte', xcte1=ps[0].a, xcte2=0.)]
        d = MultiDomain(ps, conn)
        d.out_num_cores = 1
        out.append(d)
    c = np.round(expand(case['c'], out[0].get_size(), 30.))
    did = judge(MANY, case['fn'], out[0], out[1], c, case)
    return did, [case['fn']]


# --------------------------------------------------------------------------
# Definition of one domain: something is taken away or spoiled, rejected, and put back
# --------------------------------------------------------------------------
def all_of(s, c):
    """Results of every calculation of a domain"""
    kw = dict(silent=True)
    s.Nxx, s.Nyy, s.Nxy = -3., 2., 1.
    out = dict(kC=s.calc_kC(**kw), kG=s.calc_kG(**kw), kM=s.calc_kM(**kw), kA=s.calc_kA(**kw), cA=s.calc_cA(1.3, **kw),
               fext=s.calc_fext(**kw), fint=s.calc_fint(c, **kw), kT=s.calc_kT(c=c, **kw))
    out.update(fields(s, 'uvw', c))
    out.update(fields(s, 'stress', c))
    return out


USES = {
    'kC': lambda s, c: s.calc_kC(silent=True),
    'kC(c)': lambda s, c: s.calc_kC(c=c, NLgeom=True, silent=True),
    'kG': lambda s, c: s.calc_kG(silent=True),
    'kM': lambda s, c: s.calc_kM(silent=True),
    'kT': lambda s, c: s.calc_kT(c=c, silent=True),
    'kA': lambda s, c: s.calc_kA(silent=True),
    'fint': lambda s, c: s.calc_fint(c, silent=True),
}
DEFS = {
    'no stack': dict(stack=None),
    'empty stack': dict(stack=[]),
    'unknown model': dict(model='plate_clpt_donnell_bardel'),
    'old model': dict(model='cpanel_clpt_donnell_bardell'),
    'no properties': dict(laminaprops=None, laminaprop=None),
    'empty properties': dict(laminaprops=[], laminaprop=()),
    'no thickness': dict(plyts=None, plyt=None),
    'empty thickness': dict(plyts=[], plyt=None),
}


def aero(s):
    s.flow, s.Mach, s.rho_air, s.V, s.beta, s.gamma = 'x', 2., 1.2, 700., None, None


def definition(case):
    s, f = mkshell(case), mkshell(case)
    aero(s), aero(f)
    c = expand(case['c'], 3 * s.m * s.n, .02 * laminate(case)[4])
    if case['before']:
        all_of(s, c)
    spoil = DEFS[case['what']]
    kept = {k: getattr(s, k) for k in spoil}
    for k, v in spoil.items():
        setattr(s, k, v)
    rejected(lambda: USES[case['use']](s, c), VE, '%s with %s' % (case['use'], case['what']))
    for k, v in kept.items():
        setattr(s, k, v)
    equal(all_of(s, c), all_of(f, c), 'after the rejection of %s' % case['what'], 1e-11)
    return True, [case['what'], case['use']]


AIR = {
    'no Mach': (dict(Mach=None), VE),
    'subsonic': (dict(Mach=.999), VE),
    'at rest': (dict(Mach=0.), VE),
    'flow z': (dict(flow='z'), VE),
    'flow empty': (dict(flow=''), VE),
    'flow xy': (dict(flow='xy'), VE),
}


def air(case):
    """Of the flow; given values of beta and gamma need no Mach number"""
    s, f = mkshell(case), mkshell(case)
    aero(s), aero(f)
    spoil, types = AIR[case['what']]
    for k, v in spoil.items():
        setattr(s, k, v)
    rejected(lambda: s.calc_kA(silent=True), types, 'kA with ' + case['what'])
    if 'Mach' in spoil:
        s.beta, s.gamma = 3., .5
        f.beta, f.gamma = 3., .5
        equal(s.calc_kA(silent=True), f.calc_kA(silent=True), 'kA of given parameters with ' + case['what'])
        s.beta = f.beta = s.gamma = f.gamma = None
    aero(s)
    s.flow = f.flow = case['flow']
    equal(s.calc_kA(silent=True), f.calc_kA(silent=True), 'kA after the rejection of ' + case['what'])
    f.flow = case['flow'].lower()
    equal(s.calc_kA(silent=True), f.calc_kA(silent=True), 'kA with the flow in another case')
    return True, [case['what']]


LINE = {
    'nothing': dict(k=(None, None, None), f=(None, None, None)),
    'no stiffness': dict(k=(None, None, None), f=(1, 1, 1)),
    'no function': dict(k=(1, 1, 1), f=(None, None, None)),
}
for i_, n_ in enumerate('uvw'):
    for j_ in range(3):
        if i_ != j_:      # component j complete, component i half given
            one = tuple(1 if q == j_ else None for q in range(3))
            two = tuple(1 if q in (i_, j_) else None for q in range(3))
            LINE['k%s alone, %s' % (n_, 'uvw'[j_])] = dict(k=two, f=one)
            LINE['f%s alone, %s' % (n_, 'uvw'[j_])] = dict(k=one, f=two)


LOADLISTS = ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc')


def load(case):
    """Rejected loads are not stored"""
    s, f = mkshell(case), mkshell(case)
    add = 'add_distr_%s_fixed_%s' % (case['kind'], case['axis'])
    at = (s.a if case['axis'] == 'x' else s.b) * case['at']
    what = LINE['nothing'] if case['kind'] == 'load' else LINE[case['what']]
    fs = [None if q is None else (lambda t: 1. + t) for q in what['f']]
    ks = [q if q is None else 5. for q in what['k']]
    args = fs if case['kind'] == 'load' else ks + fs
    ok = [(lambda t: 2.), None, (lambda t: 3.)]
    good = ok if case['kind'] == 'load' else [7., None, 8.] + ok
    if case['before']:
        for p in (s, f):
            getattr(p, add)(at, *good, cte=case['cte'])
    lists = [list(getattr(s, k, ())) for k in LOADLISTS]
    rejected(lambda: getattr(s, add)(at, *args, cte=case['cte']), VE, '%s with %s' % (add, case['what']))
    for k, v in zip(LOADLISTS, lists):
        if list(getattr(s, k, ())) != v:
            fail('%s has a load that was rejected' % k)
    if not case['before']:
        if np.abs(s.calc_fext(silent=True)).max(initial=0.):
            fail('a rejected load is applied')
        for p in (s, f):
            getattr(p, add)(at, *good, cte=case['cte'])
    equal(s.calc_fext(inc=.7, silent=True), f.calc_fext(inc=.7, silent=True), 'forces after the rejection of a load')
    return bool(np.abs(f.calc_fext(silent=True)).max(initial=0.)), [case['kind'] + ' ' + case['axis']]


FIELD_USES = {
    'kC': lambda s, c, F, kw: s.calc_kC(ABDnxny=F, silent=True, **kw),
    'kC(c)': lambda s, c, F, kw: s.calc_kC(c=c, ABDnxny=F, NLgeom=True, silent=True, **kw),
    'kG': lambda s, c, F, kw: s.calc_kG(c=c, ABDnxny=F, silent=True, **kw),
    'fint': lambda s, c, F, kw: s.calc_fint(c, ABDnxny=F, silent=True, **kw),
    'kT': lambda s, c, F, kw: s.calc_kT(c=c, ABDnxny=F, silent=True, **kw),
    'kM': lambda s, c, F, kw: s.calc_kM(h_nxny=F[..., 0, 0], rho_nxny=F[..., 1, 1], silent=True, **kw),
}
SHAPES = {
    'exchanged': lambda F: F.transpose(1, 0, 2, 3),
    'fewer': lambda F: F[:-1],
    'more': lambda F: np.concatenate([F, F[:, :1]], 1),
    'one row': lambda F: F[:1],
    'flat': lambda F: F.reshape((-1,) + F.shape[2:]),
}


def data(case):
    """Laminates and densities that vary are given at the points of integration"""
    s, f = mkshell(case), mkshell(case)
    s.calc_kC()
    c = expand(case['c'], 3 * s.m * s.n, .01)
    nx, ny = s.m + 2 + case['np'], s.n + 3 - case['np']
    if nx == ny:
        nx += 1
    if case['own']:
        s.nx, s.ny = f.nx, f.ny = nx, ny
        kw = {}
    else:
        kw = dict(nx=nx, ny=ny)
    i, j = np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')
    F = s.ABD * (1 + .1 * np.sin(i + 2. * j))[..., None, None]
    use = FIELD_USES[case['use']]
    rejected(lambda: use(s, c, SHAPES[case['what']](F), kw), VE, '%s with data at %s points' % (case['use'], case['what']))
    if case['use'] != 'kM' and case['what'] == 'flat':
        rejected(lambda: use(s, c, F[..., :5, :5], kw), VE, '%s with matrices of 5 x 5' % case['use'])
        rejected(lambda: use(s, c, s.ABD[:3], kw), VE, '%s with a part of the matrix' % case['use'])
    other_ = np.asfortranarray(F) if case['fortran'] else np.repeat(F, 2, 1)[:, ::2]
    equal(use(s, c, other_, kw), use(f, c, F, kw), '%s with data stored otherwise, after a rejection' % case['use'], 1e-11)
    return True, [case['use'], case['what']]


def points(case):
    """Coordinates of the fields"""
    s = mkshell(case)
    c = expand(case['c'], 3 * s.m * s.n, .01)
    g = np.linspace(.1, .9, 6)
    shapes = {'shorter': (g, g[:5]), 'one point': (g, g[:1]), 'matrix': (g.reshape(2, 3), g), 'turned': (g.reshape(2, 3), g.reshape(3, 2)),
              'number': (g, .5)}
    x, y = shapes[case['what']]
    if case['swap']:
        x, y = y, x
    fn = getattr(s, case['fn'])
    rejected(lambda: fn(c, xs=np.asarray(x) * s.a, ys=np.asarray(y) * s.b), VE, '%s with %s coordinates' % (case['fn'], case['what']))
    keys = {'uvw': ('u', 'v', 'w', 'phix', 'phiy'), 'strain': ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'),
            'stress': ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')}[case['fn']]

    def get(xs, ys):
        m, f = fn(c, xs=xs, ys=ys)
        return {k: np.array(f[k]) for k in keys}
    X, Y = g * s.a, g[::-1] * s.b
    ref_ = get(X, Y)
    for nm, (xs, ys) in {'a list': (list(X), list(Y)), 'a tuple': (tuple(X), tuple(Y)), 'a matrix': (X.reshape(2, 3), Y.reshape(2, 3)),
                         'columns': (np.asfortranarray(X.reshape(3, 2)), Y.reshape(3, 2)), 'strides': (np.repeat(X, 2)[::2], np.repeat(Y, 2)[::2])}.items():
        got = get(xs, ys)
        for k in keys:
            if np.shape(got[k]) != np.shape(xs):
                fail('%s at points given as %s: shape %s, expected %s' % (k, nm, np.shape(got[k]), np.shape(xs)))
        equal({k: v.ravel() for k, v in got.items()}, ref_, '%s at points given as %s' % (case['fn'], nm))
    one = get(float(X[2]), float(Y[2]))
    equal({k: np.ravel(v)[0] for k, v in one.items()}, {k: v[2] for k, v in ref_.items()}, '%s at one point' % case['fn'], 1e-10)
    return True, [case['fn']]


# --------------------------------------------------------------------------
# Assemblies
# --------------------------------------------------------------------------
def domain(case, conn='ok'):
    from panels.multidomain import MultiDomain
    ps = [mkshell(dict(case, mn=mn), group='g', nx=5, ny=5) for mn in (case['mn'], case['mn2'])]
    good = [dict(p1=ps[0], p2=ps[1], func=case['func'])]
    if case['func'] in ('SSxcte',):
        good[0].update(xcte1=ps[0].a, xcte2=0.)
    elif case['func'] in ('SSycte', 'BFycte'):
        good[0].update(ycte1=ps[0].b, ycte2=0.)
    d = MultiDomain(ps, good if conn == 'ok' else conn)
    d.out_num_cores = 1
    return d, good, ps


def asm(d, c, conn=None):
    kw = {} if conn is None else dict(conn=conn)
    return dict(kC=d.calc_kC(silent=True, **kw), kM=d.calc_kM(silent=True), kG=d.calc_kG(silent=True),
                fext=d.calc_fext(silent=True))


PARTS = {'no stack': ('stack',), 'no thickness': ('plyts', 'plyt'), 'no properties': ('laminaprops', 'laminaprop')}
CALLS = {'kC': lambda d, c: d.calc_kC(silent=True), 'kT': lambda d, c: d.calc_kT(c=c, silent=True),
         'fint': lambda d, c: d.calc_fint(c, silent=True), 'conn': lambda d, c: d.get_kC_conn()}


def assembly(case):
    from panels.multidomain import MultiDomain
    d, good, ps = domain(case)
    f = domain(case)[0]
    c = expand(case['c'], f.get_size(), .01)
    w = case['what']
    if w in ('unknown connection', 'empty name'):
        name = {'unknown connection': case['func'] + 'x', 'empty name': ''}[w]
        keep = good[0]['func']
        good[0]['func'] = name
        rejected(lambda: CALLS[case['use']](d, c), VE, '%s with %s' % (case['use'], w))
        good[0]['func'] = keep
    elif w == 'no connections':
        d = domain(case, None)[0]
        good = [dict(good[0], p1=d.panels[0], p2=d.panels[1])]
        rejected(lambda: CALLS[case['use']](d, c), RE, '%s with %s' % (case['use'], w))
        if case['passed']:
            equal(d.calc_kC(conn=good, silent=True), f.calc_kC(silent=True), 'stiffness with the connections passed')
        d.conn = good
    elif w in PARTS:
        p = ps[case['which']]
        attr = {k: getattr(p, k) for k in PARTS[w]}
        for k in attr:
            setattr(p, k, None)
        rejected(lambda: CALLS[case['use']](d, c), VE, '%s with a panel with %s' % (case['use'], w))
        for k, v in attr.items():
            setattr(p, k, v)
    elif w == 'sizes':
        # layers one on another have the same dimensions
        from panels.multidomain.connections import calc_kw_tsl
        pair = [ps[0], other(case)][::-1 if case['passed'] else 1]
        rejected(lambda: calc_kw_tsl(pair[0], pair[1], 'linear'), VE, 'layers of different sizes')
        kw = calc_kw_tsl(ps[0], ps[1], 'linear')
        close(np.array(kw), np.array(calc_kw_tsl(ps[1], ps[0], 'linear')), 1e-12, 'stiffness between two layers')
    elif w == 'no shell':
        rejected(lambda: MultiDomain([ps[0], None], good), (AssertionError, TypeError, ValueError), 'an assembly with something else than a shell')
    elif w == 'no points':
        fn = {'kC': 'uvw', 'kT': 'strain', 'fint': 'stress', 'conn': 'uvw'}[case['use']] + '_gauss_points'
        rejected(lambda: getattr(d, fn)(c, 'g', x_gauss=None, y_gauss=None), VE, fn + ' without points')
    elif w == 'no field':
        rejected(lambda: d.plot(c, 'g', vec='q', calc_data_only=True, use_gauss_points=case['passed'], x_gauss=3, y_gauss=3), VE, 'plot of an unknown field')
    equal(asm(d, c), asm(f, c), 'assembly after the rejection (%s)' % w, 1e-11)
    for fn in ('uvw', 'stress'):
        keys = ('u', 'v', 'w') if fn == 'uvw' else ('Nxx', 'Mxy')
        equal(flat(getattr(d, fn)(c, 'g', gridx=3, gridy=3), keys), flat(getattr(f, fn)(c, 'g', gridx=3, gridy=3), keys), fn + ' after the rejection')
    return True, [w]


def other(case):
    k = {0: dict(a=round(case['a'] * 1.1, 3)), 1: dict(b=round(case['b'] * 1.1, 3)), 2: dict(a=round(case['a'] * .9, 3), b=round(case['b'] * 1.2, 3))}
    return mkshell(dict(case, **k[case['swapped']]))


# --------------------------------------------------------------------------
# Bays
# --------------------------------------------------------------------------
def mkbay(case, panels=True, stiff=True, **over):
    from panels.stiffpanelbay.stiffpanelbay import StiffPanelBay
    stack, plyts, props, rhos, h, off = laminate(dict(case, uniform=True))
    b = StiffPanelBay()
    b.out_num_cores = 1
    b.a, b.b, b.r = case['a'], case['b'], (case['r'] if case['model'] == CYL else None)
    b.m, b.n = case['mn']
    b.stack, b.plyt, b.laminaprop, b.rho = list(stack), plyts[0], props[0], rhos[0]
    b.Mach, b.rho_air, b.V, b.flow, b.speed_sound = 2., 1.2, 700., 'x', 343.
    for k, v in zip(FLAGS, case['flags']):
        setattr(b, k, v)
    for k, v in over.items():
        setattr(b, k, v)
    ys = round(case['b'] * case['ys'], 4)
    if panels:
        b.add_panel(0., ys)
        b.add_panel(ys, case['b'])
    return b, ys


def bargs(case):
    return dict(bb=.1 * case['b'], bf=.08 * case['b'], bstack=[0., 90.], bplyt=.001, blaminaprop=MATERIALS[0], fstack=[0., 0., 90.], fplyt=.002,
                flaminaprop=MATERIALS[1])


BAD = {
    'no laminates': dict(bstack=None, fstack=None),
    'base thickness': dict(bplyt=None),
    'base material': dict(blaminaprop=None),
    'flange thickness': dict(fplyt=None),
    'flange material': dict(flaminaprop=None),
}


def bayres(b):
    kw = dict(silent=True)
    return dict(kC=b.calc_kC(**kw), kM=b.calc_kM(**kw), kA=b.calc_kA(**kw), fext=b.calc_fext(**kw), size=np.array([b.get_size()]))


def bay(case):
    b, ys = mkbay(case)
    f, _ = mkbay(case)
    add = ('add_bladestiff1d', 'add_bladestiff2d')[case['two']]
    A = bargs(case)
    if not case['based']:
        for k in ('bb', 'bstack', 'bplyt', 'blaminaprop'):
            A.pop(k)
    w = case['what']
    if w in BAD:
        if w.startswith('base'):
            A.update({k: v for k, v in bargs(case).items() if k[0] == 'b'})
        rejected(lambda: getattr(b, add)(ys, **dict(A, **BAD[w])), VE, '%s: %s missing' % (add, w))
    elif w == 'no panels':
        b = mkbay(case, panels=False)[0]
        rejected(lambda: getattr(b, add)(ys, **A), RE, add + ' before the panels')
        b.add_panel(0., ys)
        b.add_panel(ys, case['b'])
    elif w == 'no joint':
        at = ys + .07 * (case['b'] - ys)
        rejected(lambda: getattr(b, add)(at, **A), RE, add + ' within a panel')
    elif w in ('no length', 'no width'):
        k = 'a' if w == 'no length' else 'b'
        keep, _ = getattr(b, k), setattr(b, k, None)
        rejected(lambda: b.calc_kC(silent=True), VE, 'bay with ' + w)
        setattr(b, k, keep)
    elif w == 'subsonic':
        b.Mach = .9
        rejected(lambda: b.calc_kA(silent=True), VE, 'kA of a bay below Mach 1')
        rejected(lambda: b.calc_cA(silent=True), VE, 'cA of a bay below Mach 1')
        b.Mach = 2.
    elif w == 'no stack':
        keep, b.panels[1].stack = b.panels[1].stack, None
        rejected(lambda: b.calc_kC(silent=True), VE, 'kC of a bay with a panel without plies')
        b.panels[1].stack = keep
    getattr(b, add)(ys, **A)
    getattr(f, add)(ys, **A)
    equal(bayres(b), bayres(f), 'bay after the rejection (%s)' % w, 1e-11)
    n = b.get_size()
    c = expand(case['c'], n, .01)
    vec_ = {'shorter': c[:-1], 'longer': np.r_[c, 1.], 'skin': c[:3 * b.m * b.n] if case['two'] else c[:3 * b.m * b.n - 3]}[case['vec']]
    rejected(lambda: b.uvw_skin(vec_, gridx=3, gridy=3), VE, 'field of the skin for a %s vector' % case['vec'])
    if case['two']:
        rejected(lambda: b.uvw_stiffener(vec_, 0, gridx=3, gridy=3), VE, 'field of the flange for a %s vector' % case['vec'])
        rejected(lambda: b.uvw_stiffener(c, 0, region='top', gridx=3, gridy=3), VE, 'an unknown region')
        rejected(lambda: b.uvw_stiffener(c, 0, region='base', gridx=3, gridy=3), RE, 'the base of a stiffener')
    else:
        rejected(lambda: b.uvw_stiffener(c, 0, gridx=3, gridy=3), RE, 'the field of a beam')
    for fn in ('uvw_skin', 'uvw_stiffener')[:1 + case['two']]:
        arg = (c,) if fn == 'uvw_skin' else (c, 0)
        got, exp = getattr(b, fn)(*arg, gridx=3, gridy=3), getattr(f, fn)(*arg, gridx=3, gridy=3)
        equal({str(i): np.array(v) for i, v in enumerate(got)}, {str(i): np.array(v) for i, v in enumerate(exp)}, fn + ' after the rejections')
    return True, [w]


# --------------------------------------------------------------------------
# Ready models
# --------------------------------------------------------------------------
def ready(case):
    from panels.multidomain import cylinder as cy, cylinder_blade_stiffened as cb
    k, w = case['k'], case['what']
    plain = dict(height=case['a'], r=case['r'], stack=[0., 90.], plyt=1e-3, laminaprop=MATERIALS[0], npanels=k, m=3, n=3)
    blades = dict(plain, stack_blades=[[0.]] * k, width_blades=[.02] * k)
    wrong_ = k + case['more']
    if w == 'panels':
        rejected(lambda: cy.create_cylinder_assy(**dict(plain, npanels=case['few'])), VE, 'a cylinder with %d panels' % case['few'])
        rejected(lambda: cb.create_cylinder_blade_stiffened(**dict(blades, npanels=case['few'])), VE, 'a stiffened cylinder with %d panels' % case['few'])
    elif w == 'loads':
        for fn in (cy.cylinder_compression_lb_Nxx_cte, cy.cylinder_compression_lb_Nxx_from_static):
            rejected(lambda: fn(**dict(plain, Nxxs=[-1.] * wrong_)), VE, '%s with %d loads, %d panels' % (fn.__name__, wrong_, k))
    elif w in ('stack_blades', 'width_blades'):
        rejected(lambda: cb.create_cylinder_blade_stiffened(**dict(blades, **{w: (blades[w] * 3)[:wrong_]})), VE, 'a stiffened cylinder with %d %s, %d panels' % (wrong_, w, k))
    else:
        L = dict(Nxxs_skin=[-1.] * k, Nxxs_blade=[-1.] * k)
        L[w] = [-1.] * wrong_
        for fn in (cb.cylinder_blade_stiffened_compression_lb_Nxx_cte, cb.cylinder_blade_stiffened_compression_lb_Nxx_from_static):
            rejected(lambda: fn(**dict(blades, **L)), VE, '%s with %d %s, %d panels' % (fn.__name__, wrong_, w, k))
    return True, [w]


# --------------------------------------------------------------------------
# Equivalent definitions
# --------------------------------------------------------------------------
def given(case):
    """A domain defined in the form that the case asks for"""
    from panels import Shell
    stack, plyts, props, rhos, h, off = laminate(dict(case, uniform=True))
    t, p, rho = plyts[0], props[0], rhos[0]
    plyts, rhos = [t] * len(stack), [rho] * len(stack)
    form_ = case['forms']
    kind = {'list': list, 'tuple': tuple, 'array': np.array}
    D = dict(a=case['a'], b=case['b'], m=case['mn'][0], n=case['mn'][1], offset=off)
    D['stack'] = {'list': list, 'tuple': tuple, 'ints': lambda v: [int(q) if q == int(q) else q for q in v]}[form_['stack']](stack)
    D['r'] = case['r'] if case['model'] == CYL else {'none': None, 'zero': 0., 'int': 0}[form_['flat']]
    if form_['t'] == 'one':
        D['plyt'] = t
    elif form_['t'] == 'both':
        D.update(plyt=3 * t, plyts=plyts)
    else:
        D['plyts'] = (list if form_['t'] == 'list' else tuple)(plyts)
    if form_['p'] == 'one':
        D['laminaprop'] = p
    elif form_['p'] == 'both':
        D.update(laminaprop=MATERIALS[4], laminaprops=[p] * len(stack))
    elif form_['p'] == 'listed':
        D['laminaprop'] = list(p)
    else:
        D['laminaprops'] = (list if form_['p'] == 'list' else tuple)([p] * len(stack))
    if form_['rho'] == 'one':
        D['rho'] = rho
    elif form_['rho'] == 'both':
        D.update(rho=7 * rho, rhos=rhos)
    else:
        D['rhos'] = (list if form_['rho'] == 'list' else tuple)(rhos)
    cast = {'float': float, 'int': int, 'bool': bool}[form_['flags']]
    if form_['model'] == 'named':
        D['model'] = case['model']
    fl = {k: cast(v) for k, v in zip(FLAGS, case['flags'])}
    out = {}
    if form_['how'] == 'arguments':
        for k in list(D):
            if k not in ('plyts', 'laminaprops', 'rhos', 'model') + FLAGS:
                out[k] = D.pop(k)
        s = Shell(**out)
        for k, v in dict(D, **fl).items():
            setattr(s, k, v)
    elif form_['how'] == 'keywords':
        s = Shell(**dict(D, **fl))
    else:
        s = Shell()
        for k, v in dict(D, **fl).items():
            setattr(s, k, v)
        s.nx, s.ny = 2 * s.m, 2 * s.n
    s.out_num_cores = 1
    aero(s)
    return s


FORMS = st.fixed_dictionaries(dict(
    how=st.sampled_from(['arguments', 'keywords', 'attributes']), stack=st.sampled_from(['list', 'tuple', 'ints']),
    flat=st.sampled_from(['none', 'zero', 'int']), t=st.sampled_from(['one', 'list', 'tuple', 'both']),
    p=st.sampled_from(['one', 'list', 'tuple', 'both', 'listed']), rho=st.sampled_from(['one', 'list', 'tuple', 'both']),
    flags=st.sampled_from(['float', 'int', 'bool']), model=st.sampled_from(['derived', 'named'])))


def forms(case):
    s = given(case)
    base = dict(case, uniform=True)
    stack, plyts, props, rhos, h, off = laminate(base)
    f = mkshell(base, plyts=[plyts[0]] * len(stack), rhos=[rhos[0]] * len(stack), laminaprops=[props[0]] * len(stack),
                offset=off, model=case['model'])
    aero(f)
    c = expand(case['c'], 3 * s.m * s.n, .02 * h)
    for p in (s, f):
        p.add_point_load(.3 * p.a, .6 * p.b, 1., -2., 3.)
    equal(all_of(s, c), all_of(f, c), 'definition in the form %s' % case['forms'], 1e-11)
    if s.model != f.model:
        fail('model %s, expected %s' % (s.model, f.model))
    return True, [case['forms']['how'], 'r ' + (case['forms']['flat'] if case['model'] == PLATE else 'given')]


def bayforms(case):
    """Data of the panels of a bay: from the bay, or repeated for each panel and stiffener in another form"""
    b, ys = mkbay(case)
    stack, plyts, props, rhos, h, off = laminate(dict(case, uniform=True))
    t, p, rho = plyts[0], props[0], rhos[0]
    N = len(stack)
    f, _ = mkbay(case, panels=False, **(dict(plyt=2 * t, laminaprop=MATERIALS[4], rho=rho, stack=[45.]) if case['override'] else {}))
    own = [dict(stack=list(stack), plyt=t, laminaprop=p, rho=rho), dict(stack=list(stack), plyts=[t] * N, laminaprops=[p] * N, rho=rho)]
    for i, y in enumerate(((0., ys), (ys, case['b']))):
        f.add_panel(*y, **(own[case['own'] >> i & 1] if case['override'] or case['own'] >> i + 2 & 1 else {}))
    A = bargs(case)
    B = dict(bb=A['bb'], bf=A['bf'], bstack=A['bstack'], fstack=A['fstack'], bplyts=[A['bplyt']] * 2, fplyts=[A['fplyt']] * 3,
             blaminaprops=[A['blaminaprop']] * 2, flaminaprops=[A['flaminaprop']] * 3)
    if case['override']:
        B['rho'] = rho
    if case['both']:
        B.update(bplyt=.03, fplyt=.03, blaminaprop=MATERIALS[4], flaminaprop=MATERIALS[4])
    if not case['based']:
        A, B = [{k: v for k, v in q.items() if k == 'bf' or k[0] != 'b'} for q in (A, B)]
    for add, at in (('add_bladestiff2d', ys), ('add_bladestiff1d', ys)):
        if case['two'] or add.endswith('1d'):
            getattr(b, add)(at, **A)
            getattr(f, add)(at, **B)
    equal(bayres(b), bayres(f), 'bay with the data of each panel and stiffener', 1e-11)
    return True, ['override' if case['override'] else 'repeated']


def connected(case):
    """Connections stored, or passed to the calculation"""
    d, good, ps = domain(case)
    e, good2, ps2 = domain(case, None)
    K = d.calc_kC(silent=True)
    equal(e.calc_kC(conn=good2, silent=True), K, 'stiffness with the connections passed')
    equal(e.get_kC_conn(conn=good2), d.get_kC_conn(), 'stiffness of the connections passed')
    e2, good3, ps3 = domain(case)
    equal(e2.calc_kC(conn=[], silent=True), sum_of(ps3), 'stiffness with an empty list of connections passed')
    if case['stored']:
        equal(e2.calc_kC(silent=True), K, 'stiffness with the stored connections, after others were passed')
    g, good4, ps4 = domain(case)
    g.conn = tuple(good4)
    equal(g.calc_kC(silent=True), K, 'stiffness with a tuple of connections')
    return bool(abs(K - e2.calc_kC(conn=[], silent=True)).max()), [case['func']]


def sum_of(ps):
    n = [3 * p.m * p.n for p in ps]
    out = np.zeros((sum(n), sum(n)))
    at = 0
    for p, k in zip(ps, n):
        out[at:at + k, at:at + k] = dense(p.calc_kC(silent=True))
        at += k
    return out


# --------------------------------------------------------------------------
# What is left out has its documented default
# --------------------------------------------------------------------------
SIMPLE = {f: float(f.endswith('r')) for f in FLAGS}                     # Shell: simply supported, no displacement of the edges
BAYFLAGS = {f: float(f.endswith('wr')) for f in FLAGS}                   # StiffPanelBay: rotations of w only
FLANGE = {f: float(f[0] == 'y' and not f[2:] in ('ur', 'vr') or f[2:] == 'wr') for f in FLAGS}
KNOWN = dict(SIMPLE, r=None, rho=0, offset=0., x1=-1, x2=1, y1=-1, y2=1, Nxx=0., Nyy=0., Nxy=0., Nxx_cte=0., Nyy_cte=0., Nxy_cte=0.,
             flow='x', beta=None, gamma=None, force_orthotropic_laminate=False, plyts=None, laminaprops=None, rhos=None, model=None)
LEFTOUT = {
    'point load': (lambda s, c: s.add_point_load(.3 * s.a, .6 * s.b, 1., -2., 3.), lambda s, c: s.add_point_load(.3 * s.a, .6 * s.b, 1., -2., 3., cte=True)),
    'line load x': (lambda s, c: s.add_distr_load_fixed_x(.3 * s.a, funcz=np.cos), lambda s, c: s.add_distr_load_fixed_x(.3 * s.a, None, None, np.cos, True)),
    'line load y': (lambda s, c: s.add_distr_load_fixed_y(.3 * s.b, funcx=np.cos), lambda s, c: s.add_distr_load_fixed_y(.3 * s.b, np.cos, None, None, True)),
    'point pd': (lambda s, c: s.add_point_pd(.3 * s.a, .4 * s.b, 1e3, 1., 1e3, 2., 1e3, 3.),
                 lambda s, c: s.add_point_pd(.3 * s.a, .4 * s.b, 1e3, 1., 1e3, 2., 1e3, 3., cte=True)),
    'line pd x': (lambda s, c: s.add_distr_pd_fixed_x(.3 * s.a, kw=1e3, funcw=np.cos), lambda s, c: s.add_distr_pd_fixed_x(
        .3 * s.a, None, None, 1e3, None, None, np.cos, True)),
    'line pd y': (lambda s, c: s.add_distr_pd_fixed_y(.3 * s.b, ku=1e3, funcu=np.cos), lambda s, c: s.add_distr_pd_fixed_y(
        .3 * s.b, 1e3, None, None, np.cos, None, None, True)),
    'spring': (lambda s, c: s.calc_stiffness_point_constraint(.3 * s.a, .6 * s.b), lambda s, c: s.calc_stiffness_point_constraint(
        .3 * s.a, .6 * s.b, u=True, v=True, w=True, phix=False, phiy=False, kuvw=1e6)),
    'turning spring': (lambda s, c: s.calc_stiffness_point_constraint(.3 * s.a, .6 * s.b, phix=True, phiy=True), lambda s, c: s.calc_stiffness_point_constraint(
        .3 * s.a, .6 * s.b, phix=True, phiy=True, kphi=1e5)),
    'strain': (lambda s, c: fields(s, 'strain', c), lambda s, c: fields(s, 'strain', c, NLgeom=True)),
    'stress': (lambda s, c: fields(s, 'stress', c), lambda s, c: fields(s, 'stress', c, NLgeom=True)),
    'kC': (lambda s, c: s.calc_kC(c=c), lambda s, c: s.calc_kC(c=c, NLgeom=False, silent=True, finalize=True, row0=0, col0=0)),
    'kG': (lambda s, c: s.calc_kG(c=c), lambda s, c: s.calc_kG(c=c, NLgeom=False, silent=True, finalize=True, row0=0, col0=0)),
    'kM': (lambda s, c: s.calc_kM(), lambda s, c: s.calc_kM(silent=True, finalize=True, row0=0, col0=0)),
    'fint': (lambda s, c: s.calc_fint(c), lambda s, c: s.calc_fint(c, silent=True, col0=0, nx=s.nx, ny=s.ny)),
}


def defaults(case):
    from panels import Shell
    stack, plyts, props, rhos, h, off = laminate(dict(case, uniform=True))
    need = dict(a=case['a'], b=case['b'], stack=list(stack), plyt=plyts[0], laminaprop=props[0])
    m, n = case['mn']
    known = dict(KNOWN, nx=2 * m, ny=2 * n)
    names = sorted(known)
    said = {k: known[k] for i, k in enumerate(names) if case['said'] >> i & 1}
    size = dict(m=m, n=n)
    s = Shell(**need, **size, **said)
    f = Shell(**need, **size)
    for k in names:
        setattr(f, k, known[k])
    c = expand(case['c'], 3 * m * n, h)
    for k, v in (('calc_kC', {}), ('calc_kC', dict(c=c)), ('calc_kG', {}), ('calc_kM', {}), ('calc_kT', dict(c=c)), ('calc_fint', dict(c=c))):
        equal(getattr(s, k)(silent=True, **v), getattr(f, k)(silent=True, **v), '%s with %d names left out' % (k, len(known) - len(said)))
    one, two = LEFTOUT[case['call']]
    A, B = one(s, c), two(f, c)
    if A is not None:
        equal(A, B, case['call'] + ' without what has a default')
    equal(s.calc_fext(inc=1., silent=True), f.calc_fext(silent=True), 'loads, with and without inc')
    equal(s.calc_fext(inc=0., silent=True), f.calc_fext(inc=0., silent=True), 'constant part of the loads')
    for k in ('uvw', 'strain', 'stress')[case['said'] % 3:][:case['grid'] == 1]:
        mesh, out = getattr(s, k)(c)
        mesh2, out2 = getattr(f, k)(c, gridx=300, gridy=300)
        w = dict(uvw='w', strain='kyy', stress='Mxy')[k]
        equal(dict(x=mesh['Xs'], y=mesh['Ys'], f=out[w]), dict(x=mesh2['Xs'], y=mesh2['Ys'], f=out2[w]),
              k + ' without points')
    big = Shell(**need)
    if big.get_size() != 3 * 11 * 11 or (big.nx, big.ny) != (22, 22):
        fail('size %d, points %d x %d' % (big.get_size(), big.nx, big.ny))
    return len(said) < len(known), [case['call']]


def baydefaults(case):
    b, ys = mkbay(dict(case, flags=[]), panels=False)
    f, _ = mkbay(dict(case, flags=[BAYFLAGS[k] for k in FLAGS]), panels=False)
    names = sorted(BAYFLAGS)
    for i, k in enumerate(names):
        if case['said'] >> i & 1:
            setattr(b, k, BAYFLAGS[k])
    A = bargs(case)
    for q in (b, f):
        q.add_panel(0., ys)
        q.add_panel(ys, case['b'])
    if case['small']:
        A.update(mf=4, nf=3)
    b.add_bladestiff2d(ys, **A)
    f.add_bladestiff2d(ys, **dict(dict(mf=14, nf=11), **A))
    b.add_bladestiff1d(ys, **{k: v for k, v in A.items() if k not in ('mf', 'nf')})
    f.add_bladestiff1d(ys, **{k: v for k, v in A.items() if k not in ('mf', 'nf')}, Fx=0.)
    for k, v in FLANGE.items():
        setattr(f.bladestiff2ds[0].flange, k, v)
    res = bayres(b), bayres(f)
    for r, q in zip(res, (b, f)):
        r.update(kG=q.calc_kG(silent=True))
    equal(*res, 'bay with the defaults', 1e-11)
    c = expand(case['c'], b.get_size(), .01)
    got, exp = b.uvw_stiffener(c, 0, gridx=3, gridy=4), f.uvw_stiffener(c, 0, region='flange', gridx=3, gridy=4)
    equal({str(i): v for i, v in enumerate(got)}, {str(i): v for i, v in enumerate(exp)}, 'the region without a name')
    from panels.stiffpanelbay import StiffPanelBay
    e = StiffPanelBay()
    e.a, e.b, e.stack, e.plyt, e.laminaprop, e.rho = b.a, b.b, b.stack, b.plyt, b.laminaprop, 1e3
    e.add_panel(0., e.b)
    if e.get_size() != 3 * 11 * 12:
        fail('size %d of a bay without numbers of terms' % e.get_size())
    return case['said'] != 2**24 - 1, ['small' if case['small'] else 'default terms']


def asmdefaults(case):
    d, good, ps = domain(case)
    c = expand(case['c'], d.get_size(), .02)
    kw = dict(gridx=3, gridy=4)
    for f in ('uvw', 'strain', 'stress'):
        nl = {} if f == 'uvw' else dict(NLterms=True)
        keys = dict(uvw=('u', 'v', 'w', 'phix', 'phiy'), strain=('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy'), stress=('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'))[f]
        equal(flat(getattr(d, f)(c, 'g', **kw), keys), flat(getattr(d, f)(c, 'g', **kw, **nl), keys), f + ' of an assembly')
        p = dict(x_gauss=3, y_gauss=4)
        equal(flat(getattr(d, f + '_gauss_points')(c, 'g', **p), keys), flat(getattr(d, f + '_gauss_points')(c, 'g', **p, **nl), keys), f + ' at points')
        if case['what'] == f:
            equal(flat(getattr(d, f)(c, 'g'), keys), flat(getattr(d, f)(c, 'g', gridx=50, gridy=50), keys), f + ' without a grid')
    if ps[0].Nxx != 0:
        fail('the fields changed the loads')
    for p in ps:
        p.add_point_load(.3 * p.a, .6 * p.b, 1., 2., 3., cte=False)
    equal(d.calc_fext(silent=True), d.calc_fext(inc=1., silent=True), 'loads of an assembly')
    equal(d.calc_kC(silent=True), d.calc_kC(conn=good, c=None, silent=True, finalize=True, inc=1.), 'stiffness of an assembly')
    equal(d.calc_fint(c, silent=True), d.calc_fint(c, silent=True, inc=1.), 'internal forces of an assembly')
    equal(d.get_kC_conn(), d.get_kC_conn(conn=good, finalize=True), 'connections')
    return True, [case['what'], case['func']]


MN2 = dict(mn2=st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list))
FUNC = dict(func=st.sampled_from(['SSxcte', 'SSycte', 'BFycte', 'SB']))
RELATIONS = [
    Relation('vector', with_(SMALL, fn=st.sampled_from(sorted(ONE)), how=HOW, form=FORM), vector, quick=150, thorough=1500, shards=2),
    Relation('vector_of_an_assembly', with_(SMALL, fn=st.sampled_from(sorted(MANY)), how=HOW, form=FORM, **MN2), many, quick=150, thorough=1500, shards=2),
    Relation('definition', with_(SMALL, what=st.sampled_from(sorted(DEFS)), use=st.sampled_from(sorted(USES)), before=st.booleans()), definition,
             quick=100, thorough=1000, shards=2),
    Relation('air', with_(SMALL, what=st.sampled_from(sorted(AIR)), flow=st.sampled_from(['x', 'y', 'X', 'Y'])), air, quick=60, thorough=500),
    Relation('load', with_(SMALL, what=st.sampled_from(sorted(LINE)), kind=st.sampled_from(['load', 'pd']), axis=st.sampled_from(['x', 'y']),
                           at=st.sampled_from([0., .3, 1.]), cte=st.booleans(), before=st.booleans()), load, quick=120, thorough=1000),
    Relation('data', with_(SMALL, use=st.sampled_from(sorted(FIELD_USES)), what=st.sampled_from(sorted(SHAPES)), np=st.integers(0, 2), own=st.booleans(),
                           fortran=st.booleans()), data, quick=80, thorough=800),
    Relation('points', with_(SMALL, what=st.sampled_from(['shorter', 'one point', 'matrix', 'turned', 'number']), swap=st.booleans(),
                             fn=st.sampled_from(['uvw', 'strain', 'stress'])), points, quick=60, thorough=500),
    Relation('assembly', with_(SMALL, what=st.sampled_from(['unknown connection', 'empty name', 'no connections', 'no stack', 'no thickness', 'no properties',
                                                            'sizes', 'no shell', 'no points', 'no field']),
                               use=st.sampled_from(['kC', 'kT', 'fint', 'conn']), which=st.integers(0, 1), passed=st.booleans(), swapped=st.integers(0, 2),
                               **MN2, **FUNC), assembly, quick=150, thorough=1200, shards=2),
    Relation('bay', with_(SMALL, what=st.sampled_from(sorted(BAD) + ['no panels', 'no joint', 'no length', 'no width', 'subsonic', 'no stack']),
                          two=st.booleans(), based=st.booleans(), ys=st.sampled_from([.3, .5, .62]), vec=st.sampled_from(['shorter', 'longer', 'skin'])), bay,
             quick=120, thorough=1000, shards=2),
    Relation('ready', st.fixed_dictionaries(dict(a=num(.4, 2, 1), r=num(.3, 2, 1), k=st.integers(2, 4), few=st.integers(-1, 1), more=st.sampled_from([-1, 1, -2, 3]),
                                                 what=st.sampled_from(['panels', 'loads', 'stack_blades', 'width_blades', 'Nxxs_skin', 'Nxxs_blade']))),
             ready, quick=40, thorough=200),
    Relation('forms', with_(SMALL, forms=FORMS), forms, quick=120, thorough=1200, shards=2),
    Relation('bay_forms', with_(SMALL, override=st.booleans(), own=st.integers(0, 15), both=st.booleans(), based=st.booleans(), two=st.booleans(),
                                ys=st.sampled_from([.3, .5, .62])), bayforms, quick=80, thorough=800),
    Relation('connections', with_(SMALL, stored=st.booleans(), **MN2, **FUNC), connected, quick=60, thorough=500),
    Relation('defaults', with_(SMALL, mn=st.sampled_from([[5, 5], [5, 6], [6, 5], [4, 5], [2, 2]]), said=st.one_of(st.just(0), st.integers(0, 2**44 - 1)),
                               call=st.sampled_from(sorted(LEFTOUT)), grid=st.integers(0, 9)), defaults, quick=60, thorough=600),
    Relation('bay_defaults', with_(SMALL, mn=st.sampled_from([[5, 5], [5, 6], [4, 5], [3, 2]]), said=st.one_of(st.just(0), st.integers(0, 2**24 - 1)),
                                   small=st.sampled_from([True, True, True, False]), ys=st.sampled_from([.3, .5, .62])), baydefaults, quick=40, thorough=400),
    Relation('assembly_defaults', with_(SMALL, what=st.sampled_from(['uvw', 'strain', 'stress']), **MN2, **FUNC), asmdefaults, quick=16, thorough=300),
]
