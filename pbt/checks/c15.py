"""C15: aerodynamic matrices"""
import numpy as np
from hypothesis import strategies as st

from checks.common import large, CYL, PLATE, close, dense, expect_raises, expand, fail, fdict, mkdomain, mkshell, num, radius, shells, vec, with_
from core import Relation

RULE = 'the reference matrix is not zero'
ASSUMPTIONS = ['linear piston theory: the pressure on the panel is -beta * dw/ds + gamma * w, with Krumhaar\'s curvature term '
               'gamma for a flow along the axis of a cylinder', 'the damping matrix is the imaginary unit times -mu * int w w, as the code defines it']

flow = st.sampled_from(['x', 'y', 'X', 'Y'])


def compare(K, E, what, tol=1e-9, floor=0.):
    K = dense(K)
    if K.shape != E.shape:
        fail('%s: shape %s' % (what, K.shape))
    if not np.isfinite(K).all():
        fail(what + ': not finite')
    scale = max(np.abs(E).max(), 1e-3 * floor)
    Z = K.copy()
    Z[2::3, 2::3] = 0
    if np.abs(Z).max() > 0:
        fail(what + ': terms other than w')
    close(K, E, tol, what, scale=scale or 1.)


def reference(case, beta, gamma):
    f = case['flow'].lower()
    dom = mkdomain(case)
    return dom.kA(beta, gamma if f == 'x' else 0., f)


def label(case):
    return [case['model'][:5], case['flow'].lower()]


def natural(case, beta, gamma=0.):
    """Size of the entries of the series with free edges: rounding is relative to it where the supports leave none"""
    dom = mkdomain(dict(case, flags=[1.] * 24))
    return np.abs(dom.kA(abs(beta), 0., case['flow'].lower())).max() + np.abs(dom.kA(0., abs(gamma), 'x')).max()


def explicit(case):
    """Coefficients given by the user"""
    beta, gamma = case['beta'], case['gamma']
    s = mkshell(case, flow=case['flow'], beta=beta, gamma=gamma)
    if case['state']:       # not used where beta is given
        s.Mach, s.rho_air, s.V = case['state']
    E = reference(case, beta, gamma or 0.)
    sc = np.abs(E).max()
    nat = natural(case, beta, gamma or 0.)
    compare(s.calc_kA(), E, 'kA', floor=nat)
    compare(s.calc_kA(), E, 'kA, second call', floor=nat)
    r0, n = case['before'], E.shape[0]
    P = dense(s.calc_kA(size=n + r0 + 2, row0=r0, col0=r0, finalize=False))
    if P.shape != (n + r0 + 2,) * 2:
        fail('shape %s' % (P.shape,))
    compare(P[r0:r0 + n, r0:r0 + n], E, 'kA placed at an offset', floor=nat)
    P[r0:r0 + n, r0:r0 + n] = 0
    if np.abs(P).max() > 0:
        fail('kA outside of its block')
    if (s.beta, s.gamma) != (beta, gamma):
        fail('the coefficients given by the user were changed to %r' % ((s.beta, s.gamma),))
    if case['state'] and [s.Mach, s.rho_air, s.V] != case['state']:
        fail('the flow given by the user was changed to %r' % ((s.Mach, s.rho_air, s.V),))
    return bool(sc > 1e-9 * nat), label(case)


def flowstate(case):
    """Coefficients from Mach, density and speed, also after a change of them; the curvature term needs the axial flow"""
    s = mkshell(case, flow=case['flow'])
    E0 = None
    for k in range(2):
        M, rho, V = case['states'][k]
        s.Mach, s.rho_air, s.V = M, rho, V
        Me = 1.0001 if M == 1 else M
        beta = rho * V**2 / (Me**2 - 1)**.5
        r = radius(case)
        gamma = beta / (2 * r * (Me**2 - 1)**.5) if r else 0.
        E0 = reference(case, beta, gamma)
        compare(s.calc_kA(), E0, 'kA for Mach %r, state %d' % (M, k), floor=natural(case, beta, gamma))
        if s.Mach != M:
            fail('Mach was changed to %r' % s.Mach)
    return bool(np.abs(E0).max() > 0), label(case)


def work(case):
    """The quadratic form is the work of the pressure; with supported edges a plate extracts none"""
    s = mkshell(case, flow=case['flow'], beta=case['beta'], gamma=case['gamma'])
    K = dense(s.calc_kA())
    c = expand(case['c'], K.shape[0])
    dom = mkdomain(case)
    f = case['flow'].lower()
    W = W0 = 0.
    for x, y, wt, i, j in dom.grid(9, 9):
        w = dom.op('w', x, y) @ c
        ws = dom.op('w', x, y, int(f == 'x'), int(f == 'y')) @ c
        p = -case['beta'] * ws + (case['gamma'] or 0.) * w * (f == 'x')
        W += wt * p * w
    scale = 1e-3 * natural(case, case['beta'], case['gamma'] or 0.) * np.abs(c).max()**2 + np.abs(c) @ np.abs(K) @ np.abs(c)
    close(np.array(-c @ K @ c), np.array(W), 1e-9, 'work of the pressure', scale=scale or 1.)
    fl = dict(fdict(case), x1w=0., x2w=0., y1w=0., y2w=0.)
    t = mkshell(dict(case, model=PLATE), flow=case['flow'], beta=case['beta'], gamma=0., **fl)
    A = dense(t.calc_kA())
    close(A, -A.T, 1e-12, 'kA of a plate with supported edges is not skew-symmetric', scale=natural(case, case['beta']))
    return bool(scale > 0), label(case)


def damping(case):
    s, dom = mkshell(case), mkdomain(case)
    mu = case['beta']
    E = np.zeros((dom.size, dom.size))
    for x, y, wt, i, j in dom.grid(max(dom.m, 4) + 1, max(dom.n, 4) + 1):
        w = dom.op('w', x, y)
        E -= wt * mu * np.outer(w, w)
    K = dense(s.calc_cA(mu))
    if np.abs(K.real).max() > 0:
        fail('the damping matrix has a real part')
    compare(K.imag, E, 'cA')
    compare(dense(s.calc_cA(2.5 * mu)).imag, 2.5 * E, 'cA, second call')
    n = dom.size
    P = dense(s.calc_cA(mu, size=n + 6)).imag
    if P.shape != (n + 6, n + 6) or np.abs(P[n:]).max() > 0 or np.abs(P[:, n:]).max() > 0:
        fail('cA in a larger matrix')
    compare(P[:n, :n], E, 'cA in a larger matrix')
    return bool(np.abs(E).max() > 0), label(case)


def closed(case):
    """The closed-form versions give the upper triangle for supported edges"""
    from panels import modelDB
    case = dict(case, flags=[0. if k in (4, 10, 16, 22) else v for k, v in enumerate(case['flags'])])
    s = mkshell(case)
    s.calc_kC()
    mod = modelDB.db[s.model]['matrices']
    n = s.get_size()
    f = case['flow'].lower()
    fn = getattr(mod, 'fkA' + f, None)
    if fn is None:
        return False
    beta, gamma = case['beta'], case['gamma'] or 0.
    if case['model'] == PLATE:
        gamma = 0.
    r0 = case['before']
    if f == 'x':
        K = fn(beta, gamma, s, n + r0, r0, r0)
    else:
        K = fn(beta, s, n + r0, r0, r0)
    U = np.triu(dense(K)[r0:, r0:])
    compare(U, np.triu(reference(case, beta, gamma)), 'closed-form kA', floor=natural(case, beta, gamma))
    return bool(np.abs(U).max() > 0), label(case)


def invalid(case):
    ok = dict(Mach=1.5, rho_air=1.2, V=300., flow='x')

    def call(**kw):
        return lambda: mkshell(case, **dict(ok, **kw)).calc_kA()
    call()()
    for kw in (dict(Mach=None), dict(Mach=case['slow']), dict(flow='z'), dict(flow='xy')):
        expect_raises(call(**kw), ValueError, 'kA with %r' % kw)
    return True


gam = st.one_of(st.none(), st.just(0.), num(-9, 9, 2))
beta = num(.1, 900, 2)
before = st.integers(0, 3).map(lambda k: 3 * k)
stt = st.tuples(st.one_of(st.sampled_from([1, 1., 2.]), num(1.01, 6, 2)), num(.1, 9, 2), num(1, 900, 1)).map(list)
S = shells(hi=5)
ALSO = [('c19', 'aero', 80, 1500), ('c21', 'flutter', 24, 300)]
RELATIONS = [
    Relation('explicit', with_(shells(hi=6, long=10), flow=flow, beta=st.one_of(beta, beta, st.just(0.)), state=st.one_of(st.none(), stt), gamma=gam, before=before), explicit, 300, 4000, 8),
    Relation('flowstate', with_(S, flow=flow, states=st.tuples(stt, stt).map(list)), flowstate, 250, 3000, 8),
    Relation('work', with_(S, flow=flow, beta=beta, gamma=gam, c=vec(0)), work, 200, 3000, 8),
    Relation('damping', with_(shells(hi=6), beta=beta, flow=flow), damping, 250, 3000, 4),
    Relation('closed', with_(shells(hi=6), flow=flow, beta=beta, gamma=gam, before=before), closed, 250, 3000, 4),
    Relation('invalid', with_(shells(hi=3), slow=num(0, .99, 2)), invalid, 60, 300, 1),
    large('explicit', with_(shells(), flow=flow, beta=beta, state=st.none(), gamma=gam, before=before), explicit),
    large('damping', with_(shells(), beta=beta, flow=flow), damping),
]
