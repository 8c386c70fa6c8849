"""C21: prebuilt assemblies"""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import eigh

import ref
from checks.c12 import gridclose, vclose
from checks.c14 import expected as penalty
from checks.common import FLAGS, MATERIALS, close, dense, fail, num, with_
from checks.joints import energy_matrix
from core import Relation

RULE = 'the loads, the laminates or the dimensions of the parts differ (axisymmetric: the end moves)'
ASSUMPTIONS = ['the eigenvalue, linear and non-linear solvers (structsolve) are trusted',
               'the reference assembly is written from the drawings and the documentation of the functions']

SS = {k: 0. if k in ('x1u', 'x2u', 'x1v', 'x2v', 'x1w', 'x2w') else 1. for k in FLAGS}      # both ends supported, edges free
FREE = dict.fromkeys(FLAGS, 1.)


class Part:
    def __init__(self, a, b, m, n, flags, r, stack, plyt, mat, rho=0., N=0., at=(0., 0.), group='skin'):
        self.at, self.group = at, group
        self.points = m, n
        self.a, self.b, self.m, self.n, self.r = a, b, m, n, r
        self.fl, self.stack, self.plyt, self.mat, self.rho, self.N = dict(flags), list(stack), plyt, mat, rho, N
        self.h = plyt * len(stack)
        self.dom = ref.Domain(a, b, m, n, flags, r)
        self.F = ref.abd(self.stack, [plyt] * len(stack), [mat] * len(stack))
        self.key = repr((a, b, m, n, sorted(self.fl.items()), r, self.stack, plyt, mat, rho))


class Model:
    """Reference assembly: links are (i, j, func, s1, s2)"""

    def __init__(self, parts, links):
        self.parts, self.links = parts, links
        self.off = np.r_[0, np.cumsum([p.dom.size for p in parts])]
        self.cache = {}

    def once(self, key, f):
        if key not in self.cache:
            self.cache[key] = f()
        return self.cache[key]

    def diag(self, f):
        K = np.zeros((self.off[-1],) * 2)
        for i, p in enumerate(self.parts):
            s = slice(self.off[i], self.off[i + 1])
            K[s, s] = f(p, s)
        return K

    def conn(self):
        K = np.zeros((self.off[-1],) * 2)
        for i, j, f, s1, s2 in self.links:
            p, q = self.parts[i], self.parts[j]

            def E():
                kt, kr = penalty(f[-4:] if f.endswith('cte') else 'bot-top', p.F, q.F, p.h, q.h, dict(a=p.a, b=p.b))
                return energy_matrix(f, p.dom, q.dom, s1, s2, kt, kr, p.h / 2 + q.h / 2)
            idx = np.r_[self.off[i]:self.off[i + 1], self.off[j]:self.off[j + 1]]
            K[np.ix_(idx, idx)] += self.once((p.key, q.key, f, s1, s2), E)
        return K

    def kC(self):
        return self.diag(lambda p, s: self.once((p.key, 'kC'), lambda: p.dom.kC(p.F))) + self.conn()

    def kG(self, c=None, pts=2):
        if c is None:
            return self.diag(lambda p, s: p.N * self.once((p.key, 'kG'), lambda: p.dom.kG([1., 0., 0.])))
        return self.diag(lambda p, s: p.dom.kG([0., 0., 0.], p.F, c[s], nx=pts * p.points[0], ny=pts * p.points[1]))

    def kM(self):
        return self.diag(lambda p, s: self.once((p.key, 'kM'), lambda: p.dom.kM(*ref.rho_moments([p.plyt] * len(p.stack), [p.rho] * len(p.stack)))))

    def edge(self, ends):
        """Work of the membrane forces at one end: ends = {part: (x / a, Nxx)}"""
        f = np.zeros(self.off[-1])
        for i, (x, N) in ends.items():
            p = self.parts[i]
            for y, w in p.dom.line('y', max(p.n, 4) + 1):
                f[self.off[i]:self.off[i + 1]] += w * N * p.dom.op('u', x * p.a, y)
        return f


def same(assy, model, K=None):
    """Geometry, supports and laminates of each domain, and the stiffness of the assembly"""
    if len(assy.panels) != len(model.parts):
        fail('%d domains, expected %d' % (len(assy.panels), len(model.parts)))
    for i, (s, p) in enumerate(zip(assy.panels, model.parts)):
        if (s.m, s.n) != (p.m, p.n):
            fail('domain %d: %d x %d terms, expected %d x %d' % (i, s.m, s.n, p.m, p.n))
        close(np.array([s.a, s.b, s.r or 0.]), np.array([p.a, p.b, p.r or 0.]), 1e-12, 'dimensions of domain %d' % i)
        close(np.array([s.x0, s.y0]), np.array(p.at), 1e-12, 'position of domain %d' % i, scale=p.a + abs(p.at[1]))
        if s.group != p.group:
            fail('domain %d is in the group %r, expected %r' % (i, s.group, p.group))
        for k in FLAGS:
            if float(getattr(s, k)) != p.fl[k]:
                fail('domain %d: %s = %r, expected %r' % (i, k, getattr(s, k), p.fl[k]))
    if K is not None:
        gridclose(assy.kC, K, model.off, 1e-7, 'stiffness of the assembly')


def critical(K, G, vals, vecs, what):
    """vals: load factors of K + lambda G"""
    K, G = dense(K), dense(G)
    act = np.flatnonzero(np.abs(K).max(axis=1) > 0)
    K, G = K[np.ix_(act, act)], G[np.ix_(act, act)]
    s = 1 / np.sqrt(np.diag(K))
    mu = eigh(-s[:, None] * G * s, s[:, None] * K * s, eigvals_only=True)
    top = np.abs(mu).max()
    got = 1. / np.real(np.asarray(vals)[:5])
    for g in got:
        if abs(g) > 1e-3 * top and np.abs(mu - g).min() > 1e-5 * top:
            fail('%s: the load factor %r is not one of the structure; the closest is %r' % (what, 1 / g, 1 / mu[np.abs(mu - g).argmin()]))
    pos = mu[mu > 1e-3 * top]
    allgot = 1. / np.real(np.asarray(vals))
    if len(pos) and np.abs(allgot - pos.max()).min() > 1e-5 * top:
        fail('%s: the first load factor of the structure is %r; found %r' % (what, 1 / pos.max(), list(np.asarray(vals)[:5])))
    vecs = np.asarray(vecs)
    if vecs.shape[0] != dense(K).shape[0] and vecs.shape[0] <= act.max():
        fail('%s: eigenvectors of length %d' % (what, vecs.shape[0]))


def spectrum(K, M, vals, what, sym=True):
    """vals: the negative of the squared frequencies"""
    act = np.flatnonzero(np.abs(M).max(axis=1) > 0)
    vals = np.asarray(vals)[:4]
    act = act[np.abs(K[act]).max(axis=1) > 0]
    K, M = K[np.ix_(act, act)], M[np.ix_(act, act)]
    s = 1 / np.sqrt(np.abs(np.diag(K)))
    A, B = s[:, None] * M * s, s[:, None] * K * s
    mu = eigh(A, B, eigvals_only=True) if sym else np.linalg.eigvals(np.linalg.solve(B, A))
    top = np.abs(mu).max()
    for v in vals:
        d = np.abs(mu + 1 / v).min()
        if d > 1e-5 * top:
            fail('%s: the eigenvalue %r is not one of the structure; the closest is %r' % (what, v, -1 / mu[np.abs(mu + 1 / v).argmin()]))
    if sym and np.abs(mu.max() + 1 / vals).min() > 1e-5 * top:
        fail('%s: the first eigenvalue of the structure is %r; found %r' % (what, -1 / mu.max(), vals))


def call(f, **args):
    """The lists given by the caller are only read"""
    given = copy.deepcopy(args)
    out = f(**given)
    if given != args:
        fail('%s changed its arguments: %r' % (f.__name__, {k: (args[k], given[k]) for k in args if given[k] != args[k]}))
    return out


# ---------------------------------------------------------------------- cylinders
def cylinder(case, top=False, blades=False):
    a, r, n = case['a'], case['r'], case['npanels']
    b = 2 * np.pi * r / n
    fl = dict(SS, x2u=1.) if top else SS
    mat = MATERIALS[case['mat']]
    t = case['t'] * min(a, r)
    N = case['N']
    parts = [Part(a, b, *case['mn'], fl, r, case['stack'], t, mat, N=N[i], at=(0., i * b)) for i in range(n)]
    links = [(i, i + 1, 'SSycte', b, 0.) for i in range(n - 1)] + [(0, n - 1, 'SSycte', 0., b)]
    if blades:
        for i, q in enumerate(case['blades'][:n]):
            parts.append(Part(a, q['width'] * min(a, r), *case['mn'], fl, None, q['stack'], t, mat, N=q['N'], at=(0., i * b), group='blade_%02d' % i))
            links.append((i, n + i, 'BFycte', 0., 0.))
    args = dict(height=a, r=r, stack=case['stack'], plyt=t, laminaprop=mat, npanels=n, m=case['mn'][0], n=case['mn'][1])
    if blades:
        args.update(stack_blades=[q['stack'] for q in case['blades'][:n]], width_blades=[p.b for p in parts[n:]])
    return Model(parts, links), args


def build(case):
    """The assembly without loads"""
    from panels.multidomain import cylinder as C
    from panels.multidomain import cylinder_blade_stiffened as B
    bl = case['bladed']
    model, args = cylinder(case, False, bl)
    assy, conns = call(B.create_cylinder_blade_stiffened if bl else C.create_cylinder_assy, **args)
    assy.out_num_cores = 1
    assy.calc_kC(conns, silent=True)
    same(assy, model, model.kC())
    # the list of connections given to the assembly means the same
    assy.conn = conns
    close(dense(assy.calc_kC(silent=True)), dense(model.kC()), 1e-9, 'stiffness with stored connections')
    return len(set(case['stack'])) > 1 or bl, ['blades' if bl else 'skin', '%d panels' % case['npanels']]


def nxx(case):
    """Buckling with given membrane forces"""
    from panels.multidomain import cylinder as C
    from panels.multidomain import cylinder_blade_stiffened as B
    bl = case['bladed']
    model, args = cylinder(case, True, bl)
    n = case['npanels']
    if bl:
        assy, vals, vecs = call(B.cylinder_blade_stiffened_compression_lb_Nxx_cte, Nxxs_skin=case['N'][:n], Nxxs_blade=[q['N'] for q in case['blades'][:n]], num_eigvalues=case['num'], **args)
    else:
        assy, vals, vecs = call(C.cylinder_compression_lb_Nxx_cte, Nxxs=case['N'][:n], num_eigvalues=case['num'], **args)
    K, G = model.kC(), model.kG()
    same(assy, model, K)
    gridclose(assy.calc_kG(silent=True), G, model.off, 1e-7, 'kG of the assembly', floor=np.abs(G).max() * 1e-4)
    critical(K, G, vals, vecs, 'buckling of the cylinder')
    return len(set(p.N for p in model.parts)) > 1, ['blades' if bl else 'skin', '%d panels' % n]


def fromstatic(case):
    """Buckling with the stresses of the loaded edge"""
    from panels.multidomain import cylinder as C
    from panels.multidomain import cylinder_blade_stiffened as B
    bl = case['bladed']
    model, args = cylinder(case, True, bl)
    n = case['npanels']
    if bl:
        assy, c, vals, vecs = call(B.cylinder_blade_stiffened_compression_lb_Nxx_from_static, Nxxs_skin=case['N'][:n], Nxxs_blade=[q['N'] for q in case['blades'][:n]], num_eigvalues=case['num'], **args)
    else:
        assy, c, vals, vecs = call(C.cylinder_compression_lb_Nxx_from_static, Nxxs=case['N'][:n], num_eigvalues=case['num'], **args)
    K = model.kC()
    same(assy, model, K)
    f = model.edge({i: (1., p.N) for i, p in enumerate(model.parts)})
    vclose(assy.calc_fext(silent=True), f, model.off, 1e-9, 'edge load', scale=np.full(len(f), np.abs(f).max()))
    equilibrium(K, c, f)
    G = model.kG(c)
    critical(K, G, vals, vecs, 'buckling of the loaded cylinder')
    return len(set(p.N for p in model.parts)) > 1, ['blades' if bl else 'skin', '%d panels' % n]


def equilibrium(K, c, f):
    """K c = f, relative to the forces that cancel"""
    K, c = dense(K), np.asarray(c)
    act = np.abs(K).max(axis=1) > 0
    if np.abs(c[~act]).max(initial=0) > 0:
        fail('a constrained constant is not zero')
    R = (K @ c - f)[act]
    scale = np.abs(K[act]) @ np.abs(c) + np.abs(f).max()
    bad = np.abs(R) > 1e-7 * scale
    if bad.any():
        k = np.argmax(np.abs(R) / scale)
        fail('the static solution is not in equilibrium: residual %r at %d, force %r' % (R[k], k, f[act][k]))
    # the work of the load is that of the reference solution
    x = np.zeros_like(c)
    s = 1 / np.sqrt(np.diag(K)[act])
    x[act] = s * np.linalg.lstsq(s[:, None] * K[np.ix_(act, act)] * s, s * f[act], rcond=None)[0]
    close(np.array(c @ f), np.array(x @ f), 1e-5, 'work of the edge load', scale=abs(x @ f) + 1e-300)


def axisym(case):
    """A uniform edge load: the same state in each panel, and nearly the same for any number of panels"""
    from panels.multidomain import cylinder as C
    N = case['N'][0] or 10.
    xs = np.array([0., .2, .5, .9, 1.]) * case['a']
    seen, work = [], []
    for n in case['counts']:
        _, args = cylinder(dict(case, npanels=n, N=[N] * n))
        assy, conns = C.create_cylinder_assy(**args)
        for p in assy.panels:
            p.x2u = 1
            p.add_distr_load_fixed_x(p.a, lambda y: N, None, None)
        from structsolve import solve
        K = assy.calc_kC(conns, silent=True)
        f = assy.calc_fext(silent=True)
        c = solve(K, f, silent=True)
        work.append(float(f @ c))
        for k, p in enumerate(assy.panels):
            for y in (0., .37, 1.):
                p.out_num_cores = 1
                fl = p.uvw(c[p.col_start:p.col_end], xs=xs, ys=np.full(len(xs), y * p.b))[1]
                seen.append((n, k, y, [np.ravel(fl[q]) for q in 'uvw']))
    size = max(np.abs(q).max() for *_, v in seen for q in v)
    first = {}
    # each joint gives as much as a length of about the thickness
    tol = 5 * max(case['counts']) * case['t'] * min(case['a'], case['r']) * len(case['stack']) / (2 * np.pi * case['r'])
    for n, k, y, v in seen:
        for q, g, e in zip('uvw', v, first.setdefault((n, y), v)):
            close(g, e, 1e-6, '%s with %d panels: panel %d and the first one, at %g of the width' % (q, n, k, y), scale=size)
    for w in work:
        close(np.array(w), np.array(work[0]), tol, 'work of the edge load, per panel counts %r' % case['counts'])
    return size > 0, ['panels %r' % case['counts']]


def spla(case):
    """Non-linear analysis with a perturbation load: the load of each part and equilibrium at each step"""
    from panels.multidomain import cylinder as C
    model, args = cylinder(case, True)
    n = case['npanels']
    N, P = case['N'][0], case['P']
    assy, incs, cs = call(C.cylinder_spla, Nxx=N, SPLA=P, **args)
    same(assy, model, None)
    gridclose(assy.get_kC_conn(), model.conn(), model.off, 1e-7, 'connections')
    end = model.edge({i: (1., N) for i in range(n)})
    pt = np.zeros_like(end)
    d = model.parts[0].dom
    pt[:d.size] = -P * d.op('w', d.a / 2, d.b / 2)
    if len(incs) != len(cs) or not len(incs) or abs(incs[-1] - 1) > 1e-9 or sorted(incs) != list(incs):
        fail('load steps %r' % (incs,))
    for inc, c in zip(incs, cs):
        f = inc * end + pt
        vclose(assy.calc_fext(inc=inc, silent=True), f, model.off, 1e-9, 'load at step %g' % inc, scale=np.full(len(f), np.abs(f).max()))
        R = assy.calc_fint(c, silent=True) - f
        act = np.abs(model.kC()).max(axis=1) > 0
        if np.abs(R[act]).max() > 2e-3 + 1e-7 * np.abs(f).max():
            fail('step %g is not in equilibrium: residual %r for a load of %r' % (inc, np.abs(R[act]).max(), np.abs(f).max()))
    return N != 0 and P != 0, ['%d steps' % len(incs)]


# ---------------------------------------------------------------------- T-stiffened panels
def tstiff(case, static=True, loads=True, x1u_free=None):
    """Reference assembly from the drawing in the documentation: rows from x=a down to x=0, columns from y=b down to y=0"""
    a, b, r = case['a'], case['b'], case['r'] or None
    bb = case['bb'] * b
    ys = bb / 2 + (b - bb) * case['ys']
    bf = case['bf'] * b
    m, n = case['mn']
    mb, nb = case['mnb'] or (m, n)
    mf, nf = case['mnf'] or (m, n)
    D = case['defect'] * a
    gap = D or .33 * a
    t = case['t'] * min(a, b)
    mat = MATERIALS[case['mat']]
    rho = case['rho'] * 1000.
    ax = [(a - gap) / 2, gap, (a - gap) / 2]
    by = [b - ys - bb / 2, bb, ys - bb / 2]
    Ns, Nb, Nf = case['N']
    free = static if x1u_free is None else x1u_free
    xs = [ax[1] + ax[2], ax[2], 0.]
    parts = []
    for row in range(3):
        for col in range(3):
            fl = dict(FREE)
            if row == 0:
                fl.update(x2u=0., x2v=0., x2w=0.)
            if row == 2:
                fl.update(x1u=1. if free else 0., x1v=0., x1w=0.)
            if col == 0:
                fl.update(y2v=0., y2w=0.)
            if col == 2:
                fl.update(y1v=0., y1w=0.)
            parts.append(Part(ax[row], by[col], m, n, fl, r, case['stack'], t, mat, rho, Ns, (xs[row], [ys + bb / 2, ys - bb / 2, 0.][col])))
    for row in range(3):
        parts.append(Part(ax[row], bb, mb, nb, FREE, r, case['stack_base'], t, mat, rho, Nb, (xs[row], ys - bb / 2), 'base'))
        fl = dict(FREE)
        if row == 0:
            fl.update(x2u=0., x2v=0., x2w=0.)
        if row == 2:
            fl.update(x1u=1. if free else 0., x1v=0., x1w=0.)
        parts.append(Part(ax[row], bf, mf, nf, fl, None, case['stack_flange'], t, mat, rho, Nf, (xs[row], 0.), 'flange'))
    links = []
    for row in range(3):
        k = 3 * row
        links += [(k, k + 1, 'SSycte', 0., bb), (k + 1, k + 2, 'SSycte', 0., by[2])]
        if row < 2:
            links += [(k + j, k + 3 + j, 'SSxcte', 0., ax[row + 1]) for j in range(3)]
            links += [(9 + 2 * row + j, 11 + 2 * row + j, 'SSxcte', 0., ax[row + 1]) for j in range(2)]
        if row != 1 or D == 0:
            links.append((k + 1, 9 + 2 * row, 'SB', 0., 0.))
        links.append((9 + 2 * row, 10 + 2 * row, 'BFycte', bb / 2, 0.))
    args = dict(a=a, b=b, ys=ys, bb=bb, bf=bf, defect_a=case['defect'], rho=rho, plyt=t, laminaprop=mat, stack_skin=case['stack'],
                stack_base=case['stack_base'], stack_flange=case['stack_flange'], r=r, m=m, n=n)
    if case['mnb']:
        args.update(mb=mb, nb=nb)
    if case['mnf']:
        args.update(mf=mf, nf=nf)
    if loads:
        args.update(Nxx_skin=Ns, Nxx_base=Nb, Nxx_flange=Nf, run_static_case=static)
    return Model(parts, links), args


LOADED = (6, 7, 8, 13, 14)


def tlabel(case):
    return ['defect' if case['defect'] else 'no defect', 'curved' if case['r'] else 'flat']


def compression(case):
    from panels.multidomain.tstiff2d_1stiff_compression import tstiff2d_1stiff_compression as fun
    static = case['static']
    model, args = tstiff(case, static)
    for k, q in zip(('', 'b', 'f'), case['points']):
        if q:
            args['nx' + k], args['ny' + k] = q
            for p in model.parts:
                if p.group == {'': 'skin', 'b': 'base', 'f': 'flange'}[k]:
                    p.points = q
    out = call(fun, **args)
    K = model.kC()
    same(out[0], model, K)
    if static:
        assy, c, vals, vecs = out
        f = model.edge({i: (0., -model.parts[i].N) for i in LOADED})
        equilibrium(K, c, f)
        G = model.kG(c, pts=1)
        critical(K, G, vals, vecs, 'buckling of the loaded panel')
    else:
        assy, vals, vecs = out
        G = model.kG()
        gridclose(assy.calc_kG(silent=True), G, model.off, 1e-7, 'kG of the assembly', floor=np.abs(G).max() * 1e-4)
        critical(K, G, vals, vecs, 'buckling of the panel')
    return True, tlabel(case) + ['static' if static else 'constant']


def frequencies(case):
    from panels.multidomain.tstiff2d_1stiff_freq import tstiff2d_1stiff_freq as fun
    model, args = tstiff(case, True, loads=False)
    assy, vals, vecs = call(fun, **args)
    K, M = model.kC(), model.kM()
    same(assy, model, K)
    gridclose(assy.calc_kM(silent=True), M, model.off, 1e-7, 'kM of the assembly', floor=np.abs(M).max() * 1e-6)
    spectrum(K, M, vals, 'frequencies')
    return True, tlabel(case)


def flutter(case):
    from panels.multidomain.tstiff2d_1stiff_flutter import tstiff2d_1stiff_flutter as fun
    static = case['static']
    given = case['given']
    model, args = tstiff(case, static, loads=given, x1u_free=True)
    air = case['air']
    args.update(air_speed=air['V'], rho_air=air['rho'], Mach=air['M'], speed_sound=air['snd'], flow=air['flow'])
    if not given:
        args['run_static_case'] = static
        for p in model.parts:
            p.N = 0.
    out = call(fun, **args)
    K, M = model.kC(), model.kM()
    same(out[0], model, K)
    if static:
        assy, c, vals, vecs = out
        if given:
            f = model.edge({i: (0., -model.parts[i].N) for i in LOADED})
            equilibrium(K, c, f)
            K = K + model.kG(c)
        elif c is not None:
            fail('a static solution without loads')
    else:
        assy, vals, vecs = out
        K = K + model.kG()
    s = np.sqrt(air['M']**2 - 1)
    beta = air['rho'] * air['V']**2 / s
    for i in range(9):
        p = model.parts[i]
        q = slice(model.off[i], model.off[i + 1])
        gamma = beta / (2 * p.r * s) if p.r and air['flow'] == 'x' else 0.
        K[q, q] += model.once((p.key, 'kA'), lambda: p.dom.kA(beta, gamma, air['flow']))
    spectrum(K, M, vals, 'eigenvalues', sym=False)
    return True, tlabel(case) + ['static' if static else 'constant', 'flow ' + air['flow']]


ang = st.one_of(st.sampled_from([0., 90., 45., -45.]), num(-90, 90, 1))
stack = st.lists(ang, min_size=1, max_size=3)
Nx = num(-99, -1, 0)
BLADE = st.fixed_dictionaries(dict(width=num(.05, .4, 2), stack=stack, N=Nx))
CYLI = st.fixed_dictionaries(dict(a=num(.4, 3, 2), r=num(.3, 3, 2), npanels=st.integers(2, 4), mn=st.tuples(st.integers(3, 5), st.integers(3, 5)).map(list),
                                  stack=stack, t=st.sampled_from([.001, .004, .01]), mat=st.integers(0, 3), N=st.lists(Nx, min_size=4, max_size=4),
                                  blades=st.lists(BLADE, min_size=4, max_size=4), bladed=st.booleans(), num=st.integers(5, 12)))
TST = st.fixed_dictionaries(dict(a=num(.4, 3, 2), b=num(.4, 3, 2), r=st.sampled_from([0., 0., 1.5, 4.]), bb=num(.1, .5, 2), ys=num(.15, .85, 2), bf=num(.05, .3, 2),
                                 mn=st.tuples(st.integers(3, 4), st.integers(3, 4)).map(list),
                                 mnb=st.one_of(st.none(), st.tuples(st.integers(3, 4), st.integers(3, 4)).map(list)),
                                 mnf=st.one_of(st.none(), st.tuples(st.integers(3, 4), st.integers(3, 4)).map(list)),
                                 defect=st.one_of(st.just(0.), num(.1, .7, 2)), rho=num(.5, 3, 1), t=st.sampled_from([.001, .004]), mat=st.integers(0, 3),
                                 stack=stack, stack_base=stack, stack_flange=stack, N=st.lists(Nx, min_size=3, max_size=3)))
AIR = st.fixed_dictionaries(dict(flow=st.sampled_from(['x', 'y']), M=num(1.1, 3, 2), rho=num(.3, 1.5, 1), V=num(50, 900, 0), snd=num(200, 400, 0)))

RELATIONS = [
    Relation('build', CYLI, build, 60, 1000, 8),
    Relation('nxx', CYLI, nxx, 40, 800, 8),
    Relation('fromstatic', CYLI, fromstatic, 32, 600, 8),
    Relation('axisym', with_(CYLI, counts=st.lists(st.integers(2, 6), min_size=2, max_size=3, unique=True)), axisym, 32, 600, 8),
    Relation('spla', with_(CYLI, P=num(-5, 5, 1)), spla, 12, 200, 8),
    Relation('compression', with_(TST, static=st.booleans(), points=st.lists(st.one_of(st.none(), st.tuples(st.integers(4, 7), st.integers(4, 7)).map(list)), min_size=3, max_size=3)), compression, 24, 400, 8),
    Relation('frequencies', TST, frequencies, 16, 300, 8),
    Relation('flutter', with_(TST, static=st.booleans(), given=st.booleans(), air=AIR), flutter, 24, 300, 8),
]
