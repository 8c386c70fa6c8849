"""C11: integration over a part of the domain"""
import numpy as np
from hypothesis import strategies as st

from checks.common import (large, blockclose, close, dense, embed_ok, grown, expand, fail, laminate, mkabd, mkdomain, mkshell, num, ref,
                           shells, symcheck, vec, with_)
from core import Probe, Relation

RULE = 'the tiles are more than one, or the part is smaller than the domain, and the reference matrix is not zero'
ASSUMPTIONS = ['recorded finding: the aerodynamic damping matrix ignores the limits of the part']

frac = st.one_of(st.sampled_from([.25, .5]), num(.05, .95, 3))
cuts = st.lists(frac, max_size=2, unique=True).map(sorted)
N3 = st.lists(st.one_of(st.just(0.), num(-9e4, 9e4, 1)), min_size=3, max_size=3)


def tiles(case):
    """Limits of the parts; None where the whole direction is left at its default"""
    a, b = case['a'], case['b']

    def seg(c, L):
        e = [0.] + [t * L for t in c] + [L]
        return list(zip(e[:-1], e[1:]))
    return seg(case['cx'], a), seg(case['cy'], b)


def limits(case, sx, sy):
    kw = {}
    if case['cx']:
        kw.update(x1=sx[0], x2=sx[1])
    if case['cy']:
        kw.update(y1=sy[0], y2=sy[1])
    return kw


def parts(case, **extra):
    tx, ty = tiles(case)
    for sx in tx:
        for sy in ty:
            yield sx, sy, mkshell(case, **dict(limits(case, sx, sy), **extra))


def label(case):
    return [case['model'][:5], 'x' if case['cx'] else '', 'y' if case['cy'] else '']


def moments(case):
    stack, plyts, props, rhos, h, off = laminate(case)
    avg = sum(t * r for t, r in zip(plyts, rhos)) / h
    return ref.rho_moments(plyts, [avg] * len(plyts), off)


def part(case):
    """Every matrix of a part against the reference integrated over that part"""
    tx, ty = tiles(case)
    sx, sy = tx[case['pick'] % len(tx)], ty[case['pick'] % len(ty)]
    N = case['N']
    s = mkshell(case, Nxx=N[0], Nyy=N[1], Nxy=N[2], **limits(case, sx, sy))
    dom, F = mkdomain(case), mkabd(case)
    sub = (sx[0], sx[1], sy[0], sy[1])
    floor = dom.kG([max(map(abs, N))] * 2 + [0.]).max() * 1e-4
    got = {}
    for nm, K, K0, fl in (('kC', s.calc_kC(), dom.kC(F, sub=sub), 0.), ('kG', s.calc_kG(), dom.kG(N, sub=sub), floor),
                          ('kM', s.calc_kM(), dom.kM(*moments(case), sub=sub), 0.)):
        symcheck(K, nm + ' of a part')
        blockclose(K, K0, 1e-7, nm + ' of a part', 'limits %r' % (sub,), floor=fl)
        got[nm] = dense(K)
    n = got['kC'].shape[0]
    for nm in got:
        embed_ok(getattr(s, 'calc_' + nm)(size=grown(n + 8, n), row0=3, col0=3), 3, 3, got[nm], n + 8, nm + ' of a part')
    c = expand(case['c'], n)
    blockclose(s.calc_kC(c=c), got['kC'], 1e-9, 'kC of a part with a displacement state')
    return bool(case['cx'] or case['cy']) and np.abs(got['kC']).max() > 0, label(case)


def sums(case):
    """The parts of a tiling add up to the whole domain"""
    N = case['N']
    ex = dict(Nxx=N[0], Nyy=N[1], Nxy=N[2])
    whole = mkshell(case, **ex)
    size = whole.m * whole.n * 3
    c = expand(case['c'], size, min(case['a'], case['b']) * .2)
    tot = dict(kC=0., kG=0., kM=0., fint=0., kGc=0.)
    # the non-linear terms have a higher degree: enough points to be exact
    nx, ny = 2 * max(whole.m, 4) + 1, 2 * max(whole.n, 4) + 1
    for sx, sy, s in parts(case, **ex):
        tot['kC'] = tot['kC'] + dense(s.calc_kC())
        tot['kG'] = tot['kG'] + dense(s.calc_kG())
        tot['kM'] = tot['kM'] + dense(s.calc_kM())
        tot['fint'] = tot['fint'] + s.calc_fint(c, nx=nx, ny=ny)
        tot['kGc'] = tot['kGc'] + dense(s.calc_kG(c=c, nx=nx, ny=ny, NLgeom=True))
    blockclose(tot['kC'], whole.calc_kC(), 1e-7, 'sum of kC')
    floor = mkdomain(case).kG([max(map(abs, N))] * 2 + [0.]).max() * 1e-4
    blockclose(tot['kG'], whole.calc_kG(), 1e-7, 'sum of kG', floor=floor)
    blockclose(tot['kM'], whole.calc_kM(), 1e-7, 'sum of kM')
    blockclose(tot['kGc'], whole.calc_kG(c=c, nx=nx, ny=ny, NLgeom=True), 1e-7, 'sum of kG of a displacement state', floor=floor)
    f = whole.calc_fint(c, nx=nx, ny=ny)
    for k in range(3):
        close(tot['fint'][k::3], f[k::3], 1e-7, 'sum of internal forces (%s)' % 'uvw'[k],
              scale=max(np.abs(f[k::3]).max(), 1e-4 * np.abs(f).max()) or 1.)
    return bool(case['cx'] or case['cy']), label(case)


def aero(case):
    """Piston theory pressure acting on a part of the surface only"""
    tot = 0.
    for sx, sy, s in parts(case, flow=case['flow'], beta=case['beta'], gamma=case['gamma']):
        tot = tot + dense(s.calc_kA(finalize=False))
    whole = mkshell(case, flow=case['flow'], beta=case['beta'], gamma=case['gamma'])
    K = dense(whole.calc_kA(finalize=False))
    # with all the edges free nothing is zero for lack of terms: the size of the entries of this series
    free = mkshell(dict(case, flags=[1.] * 24), flow=case['flow'], beta=case['beta'], gamma=case['gamma'])
    scale = np.abs(dense(free.calc_kA(finalize=False))).max()
    close(tot, K, 1e-9, 'sum of kA', scale=scale)
    return bool(case['cx'] or case['cy']) and np.abs(K).max() > 1e-9 * scale, [case['flow']]


def damping_probe():
    case = dict(model='plate_clpt_donnell_bardell', a=1., b=1., r=1., mn=[3, 3], plies=[[0., 1., 0, 1.]], thick=1e-2,
                uniform=True, offset=0., flags=[1.] * 24)
    s, p = mkshell(case), mkshell(case, x1=0., x2=.5, y1=0., y2=1.)
    if np.abs(dense(p.calc_cA(1.)) - dense(s.calc_cA(1.))).max() > 0:
        return None
    return 'calc_cA of one half of the domain is the one of the whole domain'


S4 = shells(hi=4)
RELATIONS = [
    Relation('part', with_(S4, cx=cuts, cy=cuts, pick=st.integers(0, 5), N=N3, c=vec(0)), part, 200, 3000, 8),
    Relation('sums', with_(S4, cx=cuts, cy=cuts, N=N3, c=vec(0)), sums, 150, 2500, 8),
    Relation('aero', with_(S4, cx=cuts, cy=cuts, flow=st.sampled_from(['x', 'y']), beta=num(.1, 9, 2), gamma=num(-9, 9, 2)), aero, 150, 2000, 4),
    large('part', with_(S4, cx=cuts, cy=cuts, pick=st.integers(0, 5), N=N3, c=vec(0)), part, 10, 500),
    large('aero', with_(S4, cx=cuts, cy=cuts, flow=st.sampled_from(['x', 'y']), beta=num(.1, 9, 2), gamma=num(-9, 9, 2)), aero, 15, 500),
]
PROBES = [Probe('damping-of-a-part', damping_probe)]
