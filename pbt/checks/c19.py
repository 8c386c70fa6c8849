"""C19: stiffened panels"""
import numpy as np
from hypothesis import strategies as st

import ref
from checks.c12 import gridclose
from checks.c14 import expected as penalty
from checks.common import CYL, FLAGS, MATERIALS, PLATE, close, dense, expand, fail, num, vec, with_
from checks.joints import energy_matrix
from core import Probe, Relation, is_known

RULE = 'at least one stiffener with a base or a flange (skin: two or more panels)'
ASSUMPTIONS = ['stiffeners are at the common edge of two panels (flange only: also at the edges of the bay); bases lie within the bay',
               'the flange of a one-dimensional stiffener is a beam with the constants E1, F1, S1 of its classes and no shear deformation',
               'the base carries no initial stress, as documented by the code']

FLANGE = dict.fromkeys(FLAGS, 0.)
FLANGE.update({k: 1. for k in ('x1wr', 'x2wr', 'y1u', 'y2u', 'y1v', 'y2v', 'y1w', 'y2w', 'y1wr', 'y2wr')})


UNIT = [1., 1., 1.]      # length, force, mass (changed by C16 only)


def material(k):
    q, s = MATERIALS[k], UNIT[1] / UNIT[0]**2
    return q if s == 1. else tuple(v if i == (1 if len(q) == 2 else 2) else v * s for i, v in enumerate(q))


def density(v):
    return v * 1000. * UNIT[2] / UNIT[0]**3


def lam(L, ref_size):
    """stack, plyts, material, density, h"""
    stack = L['stack']
    pl = [L['t'] * ref_size * f for f in (1., 1.3, .8)][:len(stack)]
    if L['one']:
        pl = [pl[0]] * len(stack)
    return stack, pl, material(L['mat']), density(L['rho']), sum(pl)


def give(L, ref_size, pre=''):
    """Arguments of add_panel and add_bladestiff*: per ply or for all plies"""
    stack, pl, mat, rho, h = lam(L, ref_size)
    d = {pre + 'stack': stack}
    if L['one'] and not L['perply']:
        d.update({pre + 'plyt': pl[0], pre + 'laminaprop': mat})
    else:
        d.update({pre + 'plyts': pl, pre + 'laminaprops': [mat] * len(stack)})
    return d


def flange_flags(s):
    return dict(zip(FLAGS, s['fflags'])) if s['fflags'] else FLANGE


def mk(case):
    from panels.stiffpanelbay import StiffPanelBay
    bay = StiffPanelBay()
    bay.out_num_cores = 1
    a, b = case['a'], case['b']
    D = min(a, b)
    bay.a, bay.b, bay.r = a, b, case['r'] or None
    bay.m, bay.n = case['mn']
    if case['named']:
        bay.model = CYL if case['r'] else PLATE
    fl = dict(zip(FLAGS, case['flags']))
    for k, v in fl.items():
        setattr(bay, k, v)
    base = give(case['skin'], D)
    for k, v in base.items():
        setattr(bay, k, v)
    bay.rho = density(case['skin']['rho'])
    n = len(case['panels'])
    cuts = [0.] + [sum(p['width'] for p in case['panels'][:k + 1]) for k in range(n)]
    ys = [b * c / cuts[-1] for c in cuts]
    ys[-1] = b
    panels = []
    for k, p in enumerate(case['panels']):
        kw = dict(Nxx=p['N'][0], Nyy=p['N'][1], Nxy=p['N'][2])
        L = case['skin']
        if p['own']:
            L = p['lam']
            kw.update(give(L, D), rho=density(L['rho']))
            if 'plyts' in kw and 'plyts' not in base:
                pass
            elif 'plyt' in kw and 'plyts' in base:
                # data per ply of the bay would be used instead of the single value
                s_, pl, mat, rho, h = lam(L, D)
                kw.update(plyts=pl, laminaprops=[mat] * len(s_))
        bay.add_panel(ys[k], ys[k + 1], **kw)
        panels.append((ys[k], ys[k + 1], lam(L, D), p['N']))
    stiffs = []
    for s in case['stiffs']:
        parts = s['parts']
        if parts == 'flange':
            k = s['at'] % (n + 1)
        elif n == 1:
            continue
        else:
            k = 1 + s['at'] % (n - 1)
        y = ys[k]
        i1, i2 = (k - 1, k) if 0 < k < n else (0, 0) if k == 0 else (n - 1, n - 1)
        kw = dict(ys=y)
        bb = min(y, b - y) * 2 * s['bb']
        if parts != 'flange':
            kw.update(give(s['base'], D, 'b'), bb=bb)
        if parts != 'base':
            kw.update(give(s['flange'], D, 'f'), bf=s['bf'] * D)
        if s['rho'] is not None:
            kw['rho'] = density(s['rho'])
        if s['kind'] == '1d':
            Fx = s['N'][0] if parts != 'base' else None
            if case['named']:
                q = bay.add_bladestiff1d(Fx=Fx, **kw)
            else:
                q = bay.add_bladestiff1d(**kw)
                q.Fx = Fx
        else:
            q = bay.add_bladestiff2d(mf=s['mn'][0], nf=s['mn'][1], **kw)
            if q.flange is not None:
                q.flange.Nxx, q.flange.Nyy, q.flange.Nxy = s['N']
                for k, v in flange_flags(s).items():
                    setattr(q.flange, k, v)
        stiffs.append(dict(kind=s['kind'], y=y, bb=bb, bf=s['bf'] * D, skins=(i1, i2), obj=q, N=s['N'], mn=s['mn'], fl=flange_flags(s), forces=s['forces'],
                           base=lam(s['base'], D) if parts != 'flange' else None, flange=lam(s['flange'], D) if parts != 'base' else None,
                           rho=density(s['rho']) if s['rho'] is not None else bay.rho))
    dom = ref.Domain(a, b, case['mn'][0], case['mn'][1], fl, case['r'] or None)
    flanges = [s for s in stiffs if s['kind'] == '2d' and s['flange']]
    off = np.r_[0, np.cumsum([dom.size] + [3 * s['mn'][0] * s['mn'][1] for s in flanges])]
    for s in flanges:
        s['dom'] = ref.Domain(a, s['bf'], s['mn'][0], s['mn'][1], s['fl'])
    return bay, dom, panels, stiffs, flanges, off


def F(L, offset=0.):
    stack, pl, mat, rho, h = L
    return ref.abd(stack, pl, [mat] * len(stack), offset)


def beam(L):
    """E1, S1 of the flange of a one-dimensional stiffener"""
    stack, pl, mat, rho, h = L
    E1 = S1 = 0.
    z = 0.
    for t, th in zip(pl, stack):
        Q = ref.qbar(mat, th)
        E1 += t * (Q[0, 0] - Q[0, 1]**2 / Q[1, 1])
        S1 -= (z + t / 2) * t * (Q[0, 2] - Q[0, 1] * Q[1, 2] / Q[1, 1])
        z += t
    return E1, S1


def thickness(s, panels):
    h = .5 * (panels[s['skins'][0]][2][4] + panels[s['skins'][1]][2][4])
    hb = s['base'][4] if s['base'] else 0.
    return h, hb


def along(dom, y):
    """Operators on the line y, with weights"""
    for x, w in dom.line('x', max(dom.m, 4) + 1):
        yield w, lambda c, dx=0, dy=0, x=x: dom.op(c, x, y, dx, dy)


def expected(bay, dom, panels, stiffs, flanges, off, what, skin=True):
    K = np.zeros((off[-1], off[-1]))
    S = np.s_[:dom.size, :dom.size]
    a, b = dom.a, dom.b
    for y1, y2, L, N in panels if skin else ():
        sub = (0., a, y1, y2)
        if what == 'kC':
            K[S] += dom.kC(F(L), sub=sub)
        elif what == 'kG':
            K[S] += dom.kG(N, sub=sub)
        else:
            K[S] += dom.kM(*ref.rho_moments(L[1], [L[3]] * len(L[1])), sub=sub)
    for s in stiffs:
        h, hb = thickness(s, panels)
        if s['base']:
            sub = (0., a, s['y'] - s['bb'] / 2, s['y'] + s['bb'] / 2)
            o = -h / 2 - hb / 2
            if what == 'kC':
                K[S] += dom.kC(F(s['base'], o), sub=sub)
            elif what == 'kM':
                K[S] += dom.kM(*ref.rho_moments(s['base'][1], [s['rho']] * len(s['base'][1]), o), sub=sub)
        if not s['flange']:
            continue
        if s['kind'] == '1d':
            bf, hf = s['bf'], s['flange'][4]
            z0 = h / 2 + hb
            df = z0 + bf / 2
            E1, S1 = beam(s['flange'])
            J = hf * bf**3 / 12 + bf * hf**3 / 12
            for w, op in along(dom, s['y']):
                if what == 'kC':
                    e, k, t = op('u', 1) + df * op('w', 2), op('w', 2), op('w', 1, 1)
                    K[S] += w * bf * (E1 * np.outer(e, e) + bf**2 / 12 * E1 * np.outer(k, k) - S1 * (np.outer(e, t) + np.outer(t, e)) + J * np.outer(t, t))
                elif what == 'kG':
                    t = op('w', 1)
                    K[S] += w * s['N'][0] * np.outer(t, t)
                else:
                    for z, wz in zip(*ref.gauss(3)):
                        z = z0 + bf * (z + 1) / 2
                        wz = wz * bf / 2 * w * s['rho'] * hf
                        for q in (op('u') + z * op('w', 1), op('v') + z * op('w', 0, 1), op('w')):
                            K[S] += wz * np.outer(q, q)
            continue
        i = flanges.index(s)
        T = np.s_[off[i + 1]:off[i + 2], off[i + 1]:off[i + 2]]
        d2 = s['dom']
        L = s['flange']
        if what == 'kC':
            K[T] += d2.kC(F(L))
            # as in the code: the base with its own offset, or the first panel
            L1 = s['base'] or panels[s['skins'][0]][2]
            A1 = F(L1, -h / 2 - hb / 2 if s['base'] else 0.)
            kt, kr = penalty('ycte', A1, F(L), L1[4], L[4], None)
            E = energy_matrix('BFycte', dom, d2, s['y'], 0., kt, kr)
            idx = np.r_[:dom.size, off[i + 1]:off[i + 2]]
            K[np.ix_(idx, idx)] += E
        elif what == 'kG':
            K[T] += d2.kG(s['N'])
        else:
            K[T] += d2.kM(*ref.rho_moments(L[1], [s['rho']] * len(L[1])))
    return K


def label(stiffs, panels):
    return ['%s %s' % (s['kind'], '+'.join(k for k in ('base', 'flange') if s[k])) for s in stiffs] + ['%d panels' % len(panels)]


def matrices(case):
    bay, dom, panels, stiffs, flanges, off = made = mk(case)
    for rep in range(2):
        for what in ('kC', 'kG', 'kM'):
            A = getattr(bay, 'calc_' + what)(silent=True)
            E = expected(*made, what)
            if bay.get_size() != off[-1] or A.shape != (off[-1],) * 2:
                fail('size %r, expected %r' % (bay.get_size(), off[-1]))
            close(dense(A), dense(A).T, 1e-12, what + ' is not symmetric')
            fl = 0.
            if what == 'kG':
                top = max([np.abs(dom.kG([np.abs(N).max()] * 2 + [0.])).max() for *_, N in panels] + [abs(s['N'][0]) for s in stiffs])
                fl = max(top, 1e-3) * 1e-3
            gridclose(A, E, off, 1e-7, '%s of the stiffened panel' % what, floor=fl)
    return bool(stiffs), label(stiffs, panels)


def thicker(L, k):
    """The laminate with each ply k times as thick"""
    stack, pl, mat, rho, h = L
    return stack, [t * k for t in pl], mat, rho, h * k


def alone(case):
    """The matrices of one stiffener, calculated on their own, after its laminates or those of the skin were changed"""
    if len(case['panels']) == 1:
        case = dict(case, panels=case['panels'] * 2)
    bay, dom, panels, stiffs, flanges, off = made = mk(case)
    if not stiffs:
        return False, []
    s = stiffs[case['which'] % len(stiffs)]
    q, kb, kf, ks = s['obj'], *case['k']
    at = off[flanges.index(s) + 1] if s in flanges else 0
    if case['first']:
        for what in ('kC', 'kM'):
            getattr(bay, 'calc_' + what)(silent=True)
    for rep in range(2):
        for what in case['order']:
            if what == 'kG' and not s['flange']:
                continue        # no matrix
            A = getattr(q, 'calc_' + what)(size=off[-1], row0=at, col0=at, silent=True)
            if A is not None:
                fail('calc_%s of a stiffener returned %r' % (what, A))
            E = only(made, s, what)
            got = getattr(q, what)
            if got.shape != (off[-1],) * 2:
                fail('size %s' % (got.shape,))
            close(dense(got), dense(got).T, 1e-12, what + ' is not symmetric')
            gridclose(got, E, off, 1e-7, '%s of a stiffener on its own' % what, floor=1e-3 * max(np.abs(s['N']).max(), 1e-3) if what == 'kG' else 0.)
        if rep:
            break
        if s['base']:
            if s['kind'] == '1d':
                q.bplyts = [t * kb for t in q.bplyts]
            else:
                q.bplyts = q.base.plyts = [t * kb for t in q.bplyts]
            s['base'] = thicker(s['base'], kb)
        if s['flange']:
            if s['kind'] == '1d':
                q.fplyts = [t * kf for t in q.fplyts]
            else:
                q.flange.plyts = [t * kf for t in q.flange.plyts]
            s['flange'] = thicker(s['flange'], kf)
        i = s['skins'][0]
        panels[i] = panels[i][:2] + (thicker(panels[i][2], ks),) + panels[i][3:]
        bay.panels[i].plyts = list(panels[i][2][1])
    return True, label([s], panels)


def only(made, s, what):
    """The part of one stiffener"""
    bay, dom, panels, stiffs, flanges, off = made
    K = np.zeros((off[-1], off[-1]))
    if s in flanges:
        i = flanges.index(s) + 1
        o = np.r_[0, dom.size, dom.size + off[i + 1] - off[i]]
        idx = np.r_[:dom.size, off[i]:off[i + 1]]
        K[np.ix_(idx, idx)] = expected(bay, dom, panels, [s], [s], o, what, skin=False)
    else:
        K[:dom.size, :dom.size] = expected(bay, dom, panels, [s], [], np.r_[0, dom.size], what, skin=False)
    return K


def state(case):
    """Geometric stiffness of the stresses of a displacement state"""
    bay, dom, panels, stiffs, flanges, off = mk(case)
    c = expand(case['c'], off[-1], .01 * min(dom.a, dom.b))
    one = [s for s in stiffs if s['kind'] == '1d']
    if one:
        try:
            bay.calc_kG(silent=True, c=c)
        except NotImplementedError:
            return False, ['1d']
        fail('the geometric stiffness of a displacement state is not implemented for 1D stiffeners, but a matrix was returned')
    K = np.zeros((off[-1], off[-1]))
    nx, ny = 2 * dom.m, 2 * dom.n
    for y1, y2, L, N in panels:
        K[:dom.size, :dom.size] += dom.kG(N, F(L), c[:dom.size], nx=nx, ny=ny, sub=(0., dom.a, y1, y2))
    for i, s in enumerate(flanges):
        o = slice(off[i + 1], off[i + 2])
        d = s['dom']
        K[o, o] += d.kG(s['N'], F(s['flange']), c[o], nx=2 * d.m, ny=2 * d.n)
    A = bay.calc_kG(silent=True, c=c)
    # size of the matrix of a state without cancellation in its membrane forces
    fl = []
    for d, L, cd in [(dom, L, c[:dom.size]) for _, _, L, _ in panels[:1]] + [(s['dom'], s['flange'], c[off[i + 1]:off[i + 2]]) for i, s in enumerate(flanges)]:
        fl.append(1e-4 * np.abs(F(L)[:3, :3]).max() * np.abs(cd).max() / min(d.a, d.b) * np.abs(d.kG([1., 1., 0.])).max())
    gridclose(A, K, off, 1e-7, 'kG of a displacement state', floor=fl)
    return bool(flanges), label(stiffs, panels)


def aero(case):
    bay, dom, panels, stiffs, flanges, off = mk(case)
    air = case['air']
    bay.flow = air['flow']
    r = case['r'] or None
    if air['given']:
        bay.beta, bay.gamma, bay.aeromu = air['beta'], air['gamma'], air['mu']
        beta, gamma, mu = air['beta'], air['gamma'] or 0., air['mu'] or 0.
    else:
        M, rho, V, snd = air['M'], air['rho'], air['V'], air['snd']
        bay.Mach, bay.rho_air, bay.V, bay.speed_sound = M, rho, V, snd
        M = 1.0001 if M == 1 else M
        beta = rho * V**2 / np.sqrt(M**2 - 1)
        gamma = beta / (2 * r * np.sqrt(M**2 - 1)) if r else 0.
        mu = beta / (M * snd) * (M**2 - 2) / (M**2 - 1)
    for rep in range(2):
        A = dense(bay.calc_kA(silent=True))
        E = np.zeros((off[-1], off[-1]))
        E[:dom.size, :dom.size] = dom.kA(beta, gamma if air['flow'] in 'xX' else 0., air['flow'].lower())
        close(A, E, 1e-9, 'kA of the stiffened panel', scale=beta * max(dom.a, dom.b))
        C = dense(bay.calc_cA(silent=True))
        E = np.zeros((off[-1], off[-1]))
        for x, y, w, i, j in dom.grid(max(dom.m, 4) + 1, max(dom.n, 4) + 1):
            q = dom.op('w', x, y)
            E[:dom.size, :dom.size] += w * np.outer(q, q)
        close(C, -1j * mu * E, 1e-9, 'cA of the stiffened panel', scale=abs(mu) * dom.a * dom.b or 1.)
    if not air['given'] and bay.Mach != air['M']:
        fail('Mach was changed to %r' % bay.Mach)
    return len(panels) > 1 or bool(stiffs), ['given' if air['given'] else 'from Mach', air['flow']]


def fields(case):
    bay, dom, panels, stiffs, flanges, off = mk(case)
    if case['first']:
        bay.calc_kC(silent=True)
    else:
        bay.calc_kM(silent=True)
    c = expand(case['c'], off[-1])
    bay.out_num_cores = case['cores']
    parts = [(None, dom, 0)] + [(s, s['dom'], off[i + 1]) for i, s in enumerate(flanges)]
    for s, d, o in parts:
        f = (lambda **kw: bay.uvw_skin(c, **kw)) if s is None else (lambda **kw: bay.uvw_stiffener(c, bay.stiffeners.index(s['obj']), 'flange', **kw))
        gx, gy = case['grid']
        X, Y = np.meshgrid(np.linspace(0, d.a, gx), np.linspace(0, d.b, gy))
        px, py = np.array(case['px']) * d.a, np.array(case['py'])[:len(case['px'])] * d.b
        px = px[:py.size]
        for xs, ys, kw in ((X, Y, dict(gridx=gx, gridy=gy)), (px, py, dict(xs=px, ys=py)), (X, Y, dict(xs=X, ys=Y)),
                           (X.T, Y.T, dict(xs=X.T, ys=Y.T))):
            got = f(**kw)
            for k, nm in enumerate(('u', 'v', 'w', 'phix', 'phiy')):
                op = dict(u=('u', 0, 0), v=('v', 0, 0), w=('w', 0, 0), phix=('w', 1, 0), phiy=('w', 0, 1))[nm]
                e = np.array([d.op(op[0], x, y, *op[1:]) @ c[o:o + d.size] for x, y in zip(xs.ravel(), ys.ravel())]).reshape(xs.shape)
                if nm[0] == 'p':
                    e = -e
                g = np.asarray(got[k])
                size = max(np.abs(e).max(), 1e-3 * np.abs(c[o:o + d.size]).max() / (1 if nm in 'uvw' else min(d.a, d.b))) or 1.
                if g.shape != e.shape:
                    fail('%s has shape %s, the points %s' % (nm, g.shape, e.shape))
                close(g, e, 1e-10, '%s of the %s' % (nm, 'skin' if s is None else 'flange'), scale=size)
                close(getattr(bay, nm), e, 1e-10, nm + ' kept by the bay', scale=size)
    return bool(stiffs), label(stiffs, panels)


def forces(case):
    bay, dom, panels, stiffs, flanges, off = mk(case)
    if case['first']:
        bay.calc_kC(silent=True)
    E = np.zeros(off[-1])

    def add(lst, d, o, fs):
        for x, y, *f in fs:
            lst.append([x * d.a, y * d.b] + f)
            for k, q in zip('uvw', f):
                E[o:o + d.size] += q * d.op(k, x * d.a, y * d.b)
    add(bay.forces_skin, dom, 0, case['forces'])
    for i, s in enumerate(flanges):
        add(s['obj'].forces_flange, s['dom'], off[i + 1], s['forces'])
    for rep in range(2):
        f = np.asarray(bay.calc_fext(silent=True))
        close(f, E, 1e-10, 'external forces of the stiffened panel', scale=np.abs(E).max() + 1e-3)
    return bool(np.abs(E).max() > 0), label(stiffs, panels)


def torsion(U):
    """Twisting energy of the flange of a one-dimensional stiffener with the lengths in units of U metres, in joules"""
    from panels.stiffpanelbay import StiffPanelBay
    out = []
    for f in (True, False):
        bay = StiffPanelBay()
        bay.a, bay.b, bay.m, bay.n = 1. / U, 1. / U, 4, 4
        bay.stack, bay.plyt, bay.laminaprop, bay.rho = [0.], .001 / U, (70.e9 * U**2, .3), 1.
        for k in FLAGS:
            setattr(bay, k, 1.)
        bay.add_panel(0., .5 / U)
        bay.add_panel(.5 / U, 1. / U)
        if f:
            bay.add_bladestiff1d(ys=.5 / U, bf=.05 / U, fstack=[0.], fplyt=.002 / U, flaminaprop=(70.e9 * U**2, .3))
        K = dense(bay.calc_kC(silent=True))
        c = np.zeros(K.shape[0])
        # w = x y about the middle line
        d = ref.Domain(bay.a, bay.b, 4, 4, dict.fromkeys(FLAGS, 1.))
        pts = [(x * bay.a, y * bay.b) for x in np.linspace(0, 1, 6) for y in np.linspace(0, 1, 6)]
        A = np.array([d.op('w', x, y) for x, y in pts])
        rhs = np.array([x * U * (y * U - .5) * .01 / U for x, y in pts])
        c = np.linalg.lstsq(A, rhs, rcond=None)[0]
        out.append(.5 * c @ K @ c * U)
    return out[0] - out[1]


def torsion_units():
    e = [torsion(U) for U in (1., .001)]
    if abs(e[0] - e[1]) > 1e-6 * max(map(abs, e)):
        return ('the twisting stiffness of the flange of a BladeStiff1D is bf*Jxx, without a shear modulus: the twisting energy of the same '
                'structure is %.3g J in metres and %.3g J in millimetres' % tuple(e))


ang = st.one_of(st.sampled_from([0., 90., 45., -45.]), num(-90, 90, 1))
LAM = st.fixed_dictionaries(dict(stack=st.lists(ang, min_size=1, max_size=3), t=st.sampled_from([.002, .01, .03]), mat=st.integers(0, 3),
                                 rho=num(.5, 3, 1), one=st.booleans(), perply=st.booleans()))
N3 = st.lists(st.one_of(st.just(0.), num(-900, 900, 0)), min_size=3, max_size=3)
u01 = st.one_of(st.sampled_from([0., 1.]), num(0, 1, 2))
BITS = st.integers(0, 2**24 - 1).map(lambda v: [float(v >> i & 1) for i in range(24)])
FORCE = st.tuples(u01, u01, num(-9, 9, 1), num(-9, 9, 1), num(-9, 9, 1)).map(list)
PANEL = st.fixed_dictionaries(dict(width=num(.2, 1, 2), own=st.booleans(), lam=LAM, N=N3))
STIFF = st.fixed_dictionaries(dict(kind=st.sampled_from(['1d', '2d']), parts=st.sampled_from(['base', 'flange', 'both', 'both']), at=st.integers(0, 3),
                                   bb=num(.05, .95, 2), bf=num(.02, .5, 2), base=LAM, flange=LAM, rho=st.one_of(st.none(), num(.5, 3, 1), st.just(0.)), N=N3,
                                   mn=st.tuples(st.sampled_from([3, 2, 4, 5, 6, 7]), st.integers(2, 5)).map(list),
                                   fflags=st.one_of(st.none(), BITS), forces=st.lists(FORCE, max_size=2)))
BAY = st.fixed_dictionaries(dict(a=num(.4, 3, 2), b=num(.4, 3, 2), r=st.sampled_from([0., 0., .7, 3.]), named=st.booleans(),
                                 mn=st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list),
                                 flags=st.one_of(BITS, st.just([1.] * 24)), skin=LAM, panels=st.lists(PANEL, min_size=1, max_size=3),
                                 stiffs=st.lists(STIFF, min_size=1, max_size=3)))
AIR = st.fixed_dictionaries(dict(flow=st.sampled_from(['x', 'y', 'X', 'Y']), given=st.booleans(), beta=num(.5, 9, 1),
                                 gamma=st.one_of(st.none(), num(.1, 3, 1)), mu=st.one_of(st.none(), num(.1, 3, 1)), M=st.one_of(num(1.1, 3, 2), st.just(1.)), rho=num(.3, 1.5, 1),
                                 V=num(50, 900, 0), snd=num(200, 400, 0)))


def flanged(case):
    """Mostly two-dimensional stiffeners with a flange"""
    if case['keep']:
        case = dict(case, stiffs=[dict(s, kind='2d', parts='flange' if s['parts'] == 'base' else s['parts']) for s in case['stiffs']])
    return case


RELATIONS = [
    Relation('matrices', BAY, matrices, 100, 2500, 8),
    Relation('alone', with_(BAY, which=st.integers(0, 2), first=st.booleans(), k=st.tuples(*[st.sampled_from([1., .5, 1.5, 2.])] * 3).map(list),
                            order=st.permutations(['kC', 'kG', 'kM']).map(list)), alone, 80, 1500, 8),
    Relation('state', with_(BAY, c=vec(0), keep=st.integers(0, 5)).map(flanged), state, 80, 1500, 8),
    Relation('aero', with_(BAY, air=AIR), aero, 80, 1500, 8),
    Relation('fields', with_(BAY, c=vec(0), first=st.booleans(), cores=st.sampled_from([1, 1, 3]), grid=st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list),
                             px=st.lists(u01, min_size=1, max_size=5), py=st.lists(u01, min_size=1, max_size=5)), fields, 80, 1500, 8),
    Relation('forces', with_(BAY, first=st.booleans(), forces=st.lists(FORCE, max_size=3)), forces, 100, 1500, 8),
]
PROBES = [Probe('torsion-without-shear-modulus', torsion_units)]
