"""C12: assemblies of domains"""
import numpy as np
from hypothesis import strategies as st

import ref
from checks import c09
from checks.c14 import expected as penalty
from checks.common import (blockclose, close, dense, expand, fail, laminate, mkabd, mkdomain, mkshell, num, shells, vec, with_)
from checks.joints import FUNCS, energy_matrix, pos, symm
from core import Relation

RULE = 'two or more domains, at least one connection with nonzero energy (recovery: a nonzero field in the group)'
ASSUMPTIONS = ['connected domains have the same length along their common line',
               'the tangent stiffness and the internal forces of each domain are those of the domain on its own (C07)']

N3 = st.lists(st.one_of(st.just(0.), num(-9e4, 9e4, 1)), min_size=3, max_size=3)
domain = with_(shells(hi=4, maxplies=2), N=N3, loads=st.lists(st.one_of(c09.point, c09.line, c09.ppd), max_size=2),
               group=st.sampled_from(['skin', 'other', 'skin_2', 'Skin']))
link = st.fixed_dictionaries(dict(i=st.integers(0, 3), j=st.integers(0, 3), func=st.sampled_from(FUNCS + ('SB_TSL',)), s1=pos, s2=pos))
assembly = st.fixed_dictionaries(dict(panels=st.lists(domain, min_size=2, max_size=4), links=st.lists(link, max_size=4),
                                      c=vec(0), inc=num(-2, 2, 1)))


def domains(case):
    """The domains share the edges that their connections need"""
    fs = [l['func'] for l in case['links']]
    out = []
    for p in case['panels']:
        p = dict(p)
        if any(f in ('SSycte', 'BFycte', 'SB', 'SB_TSL') for f in fs):
            p['a'] = case['panels'][0]['a']
        if any(f in ('SSxcte', 'BFxcte', 'SB', 'SB_TSL') for f in fs):
            p['b'] = case['panels'][0]['b']
        out.append(p)
    return out


def mk(case):
    from panels.multidomain import MultiDomain
    ps = domains(case)
    shs = [mkshell(p, Nxx=p['N'][0], Nyy=p['N'][1], Nxy=p['N'][2], group=p['group']) for p in ps]
    md = MultiDomain(shs)
    md.out_num_cores = 1
    md.conn = []
    links = []
    for l in case['links']:
        i, j = l['i'] % len(ps), l['j'] % len(ps)
        if i == j:
            j = (j + 1) % len(ps)
        f = l['func']
        L = 'b' if f.endswith('ycte') else 'a'
        d = dict(p1=shs[i], p2=shs[j], func=f)
        s1, s2 = l['s1'] * ps[i][L], l['s2'] * ps[j][L]
        if f.endswith('cte'):
            k = f[-4:]
            d[k + '1'], d[k + '2'] = s1, s2
        if f == 'SB_TSL':
            d['tsl_type'] = 'linear'
        md.conn.append(d)
        links.append((i, j, f, s1, s2))
    off = np.r_[0, np.cumsum([3 * s.m * s.n for s in shs])]
    return ps, shs, md, links, off


def conn_matrix(ps, links, off):
    K = np.zeros((off[-1], off[-1]))
    for i, j, f, s1, s2 in links:
        p1, p2 = ps[i], ps[j]
        h1, h2 = laminate(p1)[4], laminate(p2)[4]
        d1, d2 = mkdomain(p1), mkdomain(p2)
        if f == 'SB_TSL':
            kt, kr = 1e4 / (p1['a'] * p1['b']), None
        else:
            kind = 'ycte' if f.endswith('ycte') else 'xcte' if f.endswith('xcte') else 'bot-top'
            kt, kr = penalty(kind, mkabd(p1), mkabd(p2), h1, h2, p1)
        E = energy_matrix(f, d1, d2, s1, s2, kt, kr, h1 / 2 + h2 / 2)
        idx = np.r_[off[i]:off[i + 1], off[j]:off[j + 1]]
        K[np.ix_(idx, idx)] += E
    return K


def gridclose(A, B, off, tol, what, floor=0.):
    """blockclose for each pair of domains; an empty coupling is zero up to the rounding of nothing.
    floor: for all, or one for each domain"""
    A, B = dense(A), dense(B)
    if A.shape != B.shape:
        fail('%s: shape %s, expected %s' % (what, A.shape, B.shape))
    for i in range(len(off) - 1):
        for j in range(len(off) - 1):
            a, b = A[off[i]:off[i + 1], off[j]:off[j + 1]], B[off[i]:off[i + 1], off[j]:off[j + 1]]
            top = np.abs(b).max(initial=0.)
            fl = floor if np.ndim(floor) == 0 else np.sqrt(floor[i] * floor[j])
            if top == 0 and fl == 0:
                if np.abs(a).max(initial=0.) > 0:
                    fail('%s: domains %d and %d are not connected' % (what, i, j))
                continue
            blockclose(a, b, tol, '%s, domains %d, %d' % (what, i, j), floor=max(fl, 1e-5 * top))


def vclose(f, g, off, tol, what, scale=None):
    for i in range(len(off) - 1):
        for k in range(3):
            a, b = f[off[i]:off[i + 1]][k::3], g[off[i]:off[i + 1]][k::3]
            s = max(np.abs(b).max(), 1e-6 * np.abs(g[off[i]:off[i + 1]]).max()) if scale is None else scale[off[i]:off[i + 1]][k::3].max()
            close(a, b, tol, '%s, domain %d (%s)' % (what, i, 'uvw'[k]), scale=s or 1.)


def blockdiag(Ks, off):
    K = np.zeros((off[-1], off[-1]))
    for i, k in enumerate(Ks):
        K[off[i]:off[i + 1], off[i]:off[i + 1]] = dense(k)
    return K


def label(case):
    return ['%d domains' % len(case['panels'])] + sorted({l['func'] for l in case['links']})


def linear(case):
    ps, shs, md, links, off = mk(case)
    if md.get_size() != off[-1]:
        fail('size %r' % md.get_size())
    C = conn_matrix(ps, links, off)
    K0 = blockdiag([mkdomain(p).kC(mkabd(p)) for p in ps], off) + C
    K = md.calc_kC(silent=True)
    close(dense(K), dense(K).T, 1e-12, 'kC of the assembly is not symmetric')
    gridclose(K, K0, off, 1e-7, 'kC of the assembly')
    gridclose(md.get_kC_conn(), C, off, 1e-8, 'connections')
    gridclose(md.get_kC_conn(conn=md.conn[:1]), conn_matrix(ps, links[:1], off), off, 1e-8, 'a connection given in the call')
    gridclose(md.calc_kC(silent=True), K0, off, 1e-7, 'kC of the assembly, second call')
    # an empty list given in the call asks for the domains alone
    if np.abs(dense(md.get_kC_conn(conn=[]))).max() > 0:
        fail('an empty list of connections has an energy')
    gridclose(md.calc_kC(conn=[], silent=True), K0 - C, off, 1e-7, 'kC with an empty list of connections', floor=np.abs(C).max() * 1e-9)
    gridclose(md.calc_kC(silent=True), K0, off, 1e-7, 'kC of the assembly, connected again')
    Nmax = max(max(map(abs, p['N'])) for p in ps)
    floor = blockdiag([mkdomain(p).kG([Nmax, Nmax, 0.]) for p in ps], off).max() * 1e-4
    G = blockdiag([mkdomain(p).kG(p['N']) for p in ps], off)
    gridclose(md.calc_kG(silent=True), G, off, 1e-8, 'kG of the assembly', floor=floor if Nmax else 0.)

    def mom(p):
        stack, plyts, props, rhos, h, o = laminate(p)
        avg = sum(t * r for t, r in zip(plyts, rhos)) / h
        return ref.rho_moments(plyts, [avg] * len(plyts), o)
    M = md.calc_kM(silent=True)
    gridclose(M, blockdiag([mkdomain(p).kM(*mom(p)) for p in ps], off), off, 1e-7, 'kM of the assembly')
    return bool(np.abs(C).max() > 0), label(case)


def forces(case):
    ps, shs, md, links, off = mk(case)
    exp, recs = np.zeros(off[-1]), []
    for k, (p, s) in enumerate(zip(ps, shs)):
        rec = c09.apply(s, p['loads'])
        exp[off[k]:off[k + 1]] = c09.expected(mkdomain(p), rec, case['inc'])
    f = np.asarray(md.calc_fext(inc=case['inc'], silent=True))
    if f.shape != exp.shape:
        fail('fext has shape %s' % (f.shape,))
    vclose(f, exp, off, 1e-9, 'fext of the assembly', scale=np.full(off[-1], np.abs(exp).max() + 1e-6))
    return bool(np.abs(exp).max() > 0), label(case)


def state(case):
    """Matrices and forces of a displacement state: each domain sees its own constants"""
    ps, shs, md, links, off = mk(case)
    amp = min(min(p['a'], p['b']) for p in ps) * .1
    c = expand(case['c'], off[-1], amp)
    C = conn_matrix(ps, links, off)
    own = [np.ascontiguousarray(c[off[i]:off[i + 1]]) for i in range(len(ps))]
    alone = [mkshell(p, Nxx=p['N'][0], Nyy=p['N'][1], Nxy=p['N'][2]) for p in ps]
    kT = blockdiag([dense(s.calc_kC(c=k, NLgeom=True)) + dense(s.calc_kG(c=k, NLgeom=True)) for s, k in zip(alone, own)], off) + C
    gridclose(md.calc_kT(c=c, silent=True), kT, off, 1e-9, 'kT of the assembly')
    gridclose(md.calc_kC(c=c, silent=True), blockdiag([s.calc_kC(c=k) for s, k in zip(alone, own)], off) + C, off, 1e-9, 'kC with a state')
    G = blockdiag([s.calc_kG(c=k) for s, k in zip(alone, own)], off)
    gridclose(md.calc_kG(c=c, silent=True), G, off, 1e-9, 'kG with a state', floor=np.abs(G).max() * 1e-7)
    f = np.concatenate([s.calc_fint(k) for s, k in zip(alone, own)])
    scale = np.abs(f) + np.abs(C) @ np.abs(c)
    vclose(np.asarray(md.calc_fint(c, silent=True)), f + C @ c, off, 1e-9, 'fint of the assembly', scale=scale)
    return bool(np.abs(C @ c).max() > 0), label(case)


def recovery(case):
    ps, shs, md, links, off = mk(case)
    md.calc_kC(silent=True)
    c = expand(case['c'], off[-1], min(min(p['a'], p['b']) for p in ps) * .1)
    grp = case['grp']
    gx, gy = case['grid']
    which = [i for i, p in enumerate(ps) if p['group'] == grp]
    xg, yg = [t * ps[0]['a'] for t in case['gp'][0]], [t * ps[0]['b'] for t in case['gp'][1]]
    top = 0.
    NL = case['NL']
    one = 'only ' + 'xy'[(gx + gy) % 2]
    for how in ('grid', 'gauss', one):
        kw = dict(gridx=gx, gridy=gy) if how == 'grid' else dict(x_gauss=np.array(xg), y_gauss=np.array(yg))
        if how == one:
            kw['y_gauss' if how[-1] == 'x' else 'x_gauss'] = None          # 50 points along the other edge
        sfx = '' if how == 'grid' else '_gauss_points'
        got = dict(getattr(md, 'uvw' + sfx)(c, grp, **kw))
        for nm in ('strain', 'stress'):
            r = getattr(md, nm + sfx)(c, grp, NLterms=NL, **kw)
            got.update({k: v for k, v in r.items() if k not in ('x', 'y')})
        for k in got:
            if len(got[k]) != len(which):
                fail('%s: %d domains in the group, %d results' % (k, len(which), len(got[k])))
        for q, i in enumerate(which):
            p, ci = ps[i], np.ascontiguousarray(c[off[i]:off[i + 1]])
            if how == 'grid':
                X, Y = np.meshgrid(np.linspace(0, p['a'], gx), np.linspace(0, p['b'], gy))
            elif how == 'only x':
                X, Y = np.meshgrid(xg, np.linspace(0, p['b'], 50))
            elif how == 'only y':
                X, Y = np.meshgrid(np.linspace(0, p['a'], 50), yg)
            else:
                X, Y = np.meshgrid(xg, yg)
            close(got['x'][q], X, 1e-12, 'x of the grid', scale=p['a'])
            close(got['y'][q], Y, 1e-12, 'y of the grid', scale=p['b'])
            s = mkshell(p)
            s.calc_kC()
            e = {}
            _, fl = s.uvw(ci, xs=X, ys=Y)
            e.update({k: np.array(fl[k]) for k in ('u', 'v', 'w', 'phix', 'phiy')})
            _, fl = s.stress(ci, xs=X, ys=Y, NLgeom=NL)
            e.update({k: np.array(fl[k]) for k in ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy', 'Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')})
            for k in e:
                a = np.asarray(got[k][q])
                if a.shape != X.shape:
                    fail('%s has shape %s, the grid %s' % (k, a.shape, X.shape))
                sc = np.abs(e[k]).max()
                if k in ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'):
                    sc = max(np.abs(e[z]).max() for z in ('Nxx', 'Nyy', 'Nxy')) * (1. if k[0] == 'N' else laminate(p)[4])
                close(a, e[k], 1e-9, '%s of domain %d' % (k, i), scale=sc or 1.)
            top = max(top, np.abs(e['w']).max())
    if which:
        for vecn in ('w', 'exx', 'Mxx'):
            _, d = md.plot(c, grp, vec=vecn, gridx=gx, gridy=gy, calc_data_only=True)
            r = dict(md.uvw(c, grp, gridx=gx, gridy=gy), **{k: v for k, v in md.stress(c, grp, gridx=gx, gridy=gy).items() if len(k) > 1},
                     **{k: v for k, v in md.strain(c, grp, gridx=gx, gridy=gy).items() if len(k) > 1})[vecn]
            lo, hi = min(z.min() for z in r), max(z.max() for z in r)
            close(np.array([d['vecmin'], d['vecmax']]), np.array([lo, hi]), 1e-9, 'limits of the plot of ' + vecn)
    return bool(top > 0), label(case)


def hermite(x0, L, p):
    """Constants of x^p (p <= 3) over [x0, x0 + L]"""
    d = lambda x: p * x**(p - 1) if p else 0.
    x1 = x0 + L
    return np.array([x0**p, L * d(x0), x1**p, L * d(x1)])


def polyfield(x0, a, y0, b, m, n, P):
    """Constants of the bicubic field of a domain that starts at (x0, y0); P: dict comp -> list of (p, q, value)"""
    c = np.zeros(3 * m * n)
    for k, comp in enumerate('uvw'):
        T = np.zeros((n, m))
        for p, q, v in P[comp]:
            T[:4, :4] += v * np.outer(hermite(y0, b, q), hermite(x0, a, p))
        c[k::3] = T.ravel()
    return c


def cut(case):
    """A domain cut in two and joined has the energies of the whole in every smooth displacement"""
    from panels.multidomain import MultiDomain
    base = dict(case['base'], flags=[1.] * 24)
    a, b, t, ax = base['a'], base['b'], case['t'], case['axis']
    N = case['N']
    kw = dict(Nxx=N[0], Nyy=N[1], Nxy=N[2])
    whole = mkshell(base, **kw)
    P = {comp: [(p, q, v / (1. if comp == 'w' else 10.) * a**(-p) * b**(-q)) for p, q, v in case['field'][k]] for k, comp in enumerate('uvw')}
    cw = polyfield(0, a, 0, b, whole.m, whole.n, P)
    mn2 = case['mn2']
    if ax == 'x':
        q1, q2 = dict(base, a=t * a), dict(base, a=(1 - t) * a, mn=mn2)
        o1, o2 = (0., 0.), (t * a, 0.)
    else:
        q1, q2 = dict(base, b=t * b), dict(base, b=(1 - t) * b, mn=mn2)
        o1, o2 = (0., 0.), (0., t * b)
    stack, plyts, props, rhos, h, off = laminate(base)     # of the whole: the parts have the same one
    lam = dict(plyts=plyts, offset=off)
    S1, S2 = mkshell(q1, **dict(lam, **kw)), mkshell(q2, **dict(lam, **kw))
    c1 = polyfield(*[z for pr in zip(o1, (q1['a'], q1['b'])) for z in pr], S1.m, S1.n, P)
    c2 = polyfield(*[z for pr in zip(o2, (q2['a'], q2['b'])) for z in pr], S2.m, S2.n, P)
    if case['swap']:
        S1, S2, c1, c2 = S2, S1, c2, c1
    f = 'SS%scte' % ax
    L = dict(x='a', y='b')[ax]
    e1, e2 = (getattr(S1, L), 0.) if not case['swap'] else (0., getattr(S2, L))
    conn = [dict(p1=S1, p2=S2, func=f, **{ax + 'cte1': e1, ax + 'cte2': e2})]
    md = MultiDomain([S1, S2], conn)
    c = np.concatenate([c1, c2])
    for nm in ('kC', 'kG', 'kM'):
        K, W = dense(getattr(md, 'calc_' + nm)(silent=True)), dense(getattr(whole, 'calc_' + nm)())
        e, e0 = c @ K @ c, cw @ W @ cw
        s = np.abs(c) @ np.abs(K) @ np.abs(c)
        close(np.array(e), np.array(e0), 1e-9, 'energy (%s) of the cut domain' % nm, scale=s or 1.)
    # a load inside one of the parts
    whole.add_point_load(.3 * a, .3 * b, 1., 2., 3.)
    inside = S1 if (t > .3) != case['swap'] else S2
    o = o1 if t > .3 else o2
    inside.add_point_load(.3 * a - o[0], .3 * b - o[1], 1., 2., 3.)
    if t != .3:
        wf, f0 = md.calc_fext(silent=True) @ c, whole.calc_fext() @ cw
        close(np.array(wf), np.array(f0), 1e-8, 'work of a load on the cut domain', scale=np.abs(c).max() * 50 + 1e-30)
    return bool(np.abs(c).max() > 0), [base['model'][:5] + ' ' + ax]


pq = st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), num(-5, 5, 1)).map(list), max_size=4)
RELATIONS = [
    Relation('linear', assembly, linear, 150, 3000, 8),
    Relation('forces', assembly, forces, 200, 3000, 8),
    Relation('state', assembly, state, 120, 2500, 8),
    Relation('recovery', with_(assembly, grp=st.sampled_from(['skin', 'skin', 'other', 'skin_2']), grid=st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list),
                               gp=st.tuples(*[st.lists(pos, min_size=1, max_size=4)] * 2).map(list), NL=st.booleans()), recovery, 150, 2500, 8),
    Relation('cut', st.fixed_dictionaries(dict(base=shells(lo=4, hi=6), mn2=st.tuples(st.integers(4, 6), st.integers(4, 6)).map(list),
                                               t=num(.1, .9, 2), axis=st.sampled_from(['x', 'y']), N=N3, swap=st.booleans(),
                                               field=st.tuples(pq, pq, pq).map(list))), cut, 200, 3000, 8),
]
