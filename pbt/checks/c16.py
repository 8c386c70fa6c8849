"""C16: symmetries of the physics.  A definition is transformed by a random sequence of symmetry operations; every result
of the transformed definition must be the one that the operations prescribe for the results of the original."""
import copy

import numpy as np
from hypothesis import strategies as st

import ref
from checks.common import CYL, FLAGS, MATERIALS, PLATE, close, dense, expand, fail, laminate, num, radius, shells, vec, wave, with_
from core import Relation

RULE = 'at least one operation changes the definition'
ASSUMPTIONS = ['the average density is used for the mass matrix of mixed laminates, as documented']


def definition(case):
    stack, plyts, props, rhos, h, off = laminate(case)
    return dict(a=case['a'], b=case['b'], r=radius(case), m=case['mn'][0], n=case['mn'][1], stack=stack, plyts=plyts,
                props=[list(p) for p in props], rhos=rhos, offset=off, flags=dict(zip(FLAGS, case['flags'])), N=[10. * v for v in case['N']],
                flow=case['flow'], beta=case['beta'], gamma=case['gamma'] if case['model'] == CYL and case['flow'] == 'x' else 0.,
                mu=case['mu'], points=[[x * case['a'], y * case['b'], fx, fy, fz] for x, y, fx, fy, fz in case['points']],
                lines=[[k, s * case['a' if k == 'x' else 'b'], list(p)] for k, s, p in case['lines']])


def build(d):
    from panels import Shell
    s = Shell(a=d['a'], b=d['b'], r=d['r'], stack=d['stack'], plyts=d['plyts'], laminaprops=[tuple(p) for p in d['props']],
              rhos=d['rhos'], m=d['m'], n=d['n'], offset=d['offset'], **d['flags'])
    s.out_num_cores = 1
    s.Nxx, s.Nyy, s.Nxy = d['N']
    s.flow, s.beta, s.gamma = d['flow'], d['beta'], d['gamma']
    for p in d['points']:
        s.add_point_load(*p)
    for k, at, (f, L) in d['lines']:
        # a load that grows linearly along the line, L: length scale of the coordinate
        fn = [None if q is None else (lambda t, q=q, L=L: q[0] + q[1] * t / L) for q in f]
        (s.add_distr_load_fixed_x if k == 'x' else s.add_distr_load_fixed_y)(at, *fn)
    return s


class Map:
    """How results transform.  T: amplitudes, E: matrix of the strain vector (exx .. kxy), P: points, e: energy, mass"""

    def __init__(self, size):
        self.T, self.E, self.e, self.ms = np.eye(size), np.eye(6), 1., 1.
        self.P = []

    def point(self, x, y):
        for f in self.P:
            x, y = f(x, y)
        return x, y


def swapname(k):
    """Name of a flag with the axes exchanged"""
    return {'x': 'y', 'y': 'x'}[k[0]] + k[1] + {'u': 'v', 'v': 'u', 'w': 'w'}[k[2]] + k[3:]


def op_swap(d, M, p):
    if d['r']:
        return False
    a, b, m, n = d['a'], d['b'], d['m'], d['n']
    T = np.zeros((3 * m * n,) * 2)
    for j in range(n):
        for i in range(m):
            for k, l in ((0, 1), (1, 0), (2, 2)):
                T[3 * (i * n + j) + l, 3 * (j * m + i) + k] = 1.
    d.update(a=b, b=a, m=n, n=m, stack=[90. - t for t in d['stack']], flags={swapname(k): v for k, v in d['flags'].items()},
             N=[d['N'][1], d['N'][0], d['N'][2]], flow={'x': 'y', 'y': 'x'}[d['flow']],
             points=[[y, x, fy, fx, fz] for x, y, fx, fy, fz in d['points']],
             lines=[[{'x': 'y', 'y': 'x'}[k], at, ([f[1], f[0], f[2]], L)] for k, at, (f, L) in d['lines']])
    M.T = T @ M.T
    E = np.zeros((6, 6))
    for i, j in enumerate((1, 0, 2, 4, 3, 5)):
        E[i, j] = 1.
    M.E = E @ M.E
    M.P.append(lambda x, y: (y, x))
    return True


def parity(n):
    Q = np.zeros((n, n))
    Q[0, 2] = Q[2, 0] = 1.
    Q[1, 3] = Q[3, 1] = -1.
    for i in range(4, n):
        Q[i, i] = (-1.)**i
    return Q


def op_mirror(d, M, p):
    """x -> a - x (p even) or y -> b - y"""
    m, n = d['m'], d['n']
    alongx = p % 2 == 0
    if (m if alongx else n) < 4:
        return False
    A, B = (parity(m), np.eye(n)) if alongx else (np.eye(m), parity(n))
    ax, L, comp = ('x', d['a'], 0) if alongx else ('y', d['b'], 1)
    T = np.zeros((3 * m * n,) * 2)
    for k in range(3):
        T[k::3, k::3] = np.kron(B, A) * (-1. if k == comp else 1.)
    fl = {}
    for k, v in d['flags'].items():
        fl[(k[0] + {'1': '2', '2': '1'}[k[1]] + k[2:]) if k[0] == ax else k] = v
    sg = [-1. if i == comp else 1. for i in range(3)]
    pts = []
    for x, y, *f in d['points']:
        pts.append([L - x if alongx else x, y if alongx else L - y] + [s * v for s, v in zip(sg, f)])
    lines = []
    for k, at, (f, S) in d['lines']:
        if k == ax:
            g = [None if q is None else [s * q[0], s * q[1]] for s, q in zip(sg, f)]
            lines.append([k, L - at, (g, S)])
        else:
            g = [None if q is None else [s * (q[0] + q[1] * L / S), -s * q[1]] for s, q in zip(sg, f)]
            lines.append([k, at, (g, S)])
    d.update(stack=[-t for t in d['stack']], flags=fl, N=[d['N'][0], d['N'][1], -d['N'][2]], points=pts, lines=lines)
    if d['flow'] == ax:
        d['beta'] = -d['beta']
    M.T = T @ M.T
    M.E = np.diag([1., 1., -1., 1., 1., -1.]) @ M.E
    M.P.append((lambda x, y: (L - x, y)) if alongx else (lambda x, y: (x, L - y)))
    return True


def op_flip(d, M, p):
    """The other side of the plate up: z -> -z, w -> -w"""
    if d['r']:
        return False
    for k in ('stack', 'plyts', 'props', 'rhos'):
        d[k] = d[k][::-1]
    d['offset'] = -d['offset']
    s = np.ones(M.T.shape[0])
    s[2::3] = -1.
    M.T = s[:, None] * M.T
    M.E = np.diag([1., 1., 1., -1., -1., -1.]) @ M.E
    d['points'] = [[x, y, fx, fy, -fz] for x, y, fx, fy, fz in d['points']]
    d['lines'] = [[k, at, ([f[0], f[1], None if f[2] is None else [-f[2][0], -f[2][1]]], L)] for k, at, (f, L) in d['lines']]
    return True


UNITS = ((1e3, 1., 1e-3), (39.37, .2248, .0685), (.5, 3., 7.), (1., 1e-6, 1e-6), (1e-4, 1., 10.), (1e4, 1e6, 1e-8))


def op_units(d, M, p):
    L, F, m = UNITS[p % len(UNITS)]
    for k in ('a', 'b', 'offset'):
        d[k] *= L
    if d['r']:
        d['r'] *= L
    d['plyts'] = [t * L for t in d['plyts']]
    d['props'] = [[v if k == (1 if len(q) == 2 else 2) else v * F / L**2 for k, v in enumerate(q)] for q in d['props']]
    d['rhos'] = [v * m / L**3 for v in d['rhos']]
    d['N'] = [v * F / L for v in d['N']]
    d['beta'] *= F / L**2
    d['gamma'] *= F / L**3
    d['mu'] *= m / L**2
    d['points'] = [[x * L, y * L] + [f * F for f in fs] for x, y, *fs in d['points']]
    d['lines'] = [[k, at * L, ([None if q is None else [v * F / L for v in q] for q in f], S * L)] for k, at, (f, S) in d['lines']]
    M.T = L * M.T
    M.E = np.diag([1., 1., 1., 1 / L, 1 / L, 1 / L]) @ M.E
    M.e *= F * L
    M.ms *= m * L * L
    M.P.append(lambda x, y: (x * L, y * L))
    return True


def op_split(d, M, p):
    """One ply becomes several of the same material and direction"""
    i, k = p % len(d['stack']), 2 + p % 2
    t = d['plyts'][i] / k
    for key, v in (('stack', d['stack'][i]), ('plyts', t), ('props', d['props'][i]), ('rhos', d['rhos'][i])):
        d[key] = d[key][:i] + [v] * k + d[key][i + 1:]
    return True


def op_turn(d, M, p):
    """A ply direction is an axis: 180 degrees do not change it"""
    d['stack'] = [t + (180. if (p >> k) % 2 == 0 else 0.) for k, t in enumerate(d['stack'])]
    return True


def op_reference(d, M, p):
    """The displacements are those of another surface: u' = u - s w,x.  Needs u and v with all their freedoms"""
    if any(d['flags'][k] != 1. for k in FLAGS if k[2] in 'uv') or d['points'] or d['lines'] or min(d['m'], d['n']) < 4:
        return False
    m, n = d['m'], d['n']
    s = (p % 7 - 3) * .3 * sum(d['plyts'])
    d['offset'] = d['offset'] + s
    # laminate coordinates grow by s: a point at z is now at z + s, u(z) = u - z w,x must be kept: u_new = u_old + s w,x
    fx = [d['flags'][k] for k in ('x1w', 'x1wr', 'x2w', 'x2wr')]
    fy = [d['flags'][k] for k in ('y1w', 'y1wr', 'y2w', 'y2wr')]

    def mats(N, fl):
        x = np.cos(np.linspace(0, np.pi, 3 * N))
        free = np.array([ref.basis(N, t, 0, (1., 1., 1., 1.)) for t in x])
        val = np.array([ref.basis(N, t, 0, tuple(fl)) for t in x])
        der = np.array([ref.basis(N, t, 1, tuple(fl)) for t in x])
        return [np.linalg.lstsq(free, q, rcond=None)[0] for q in (val, der)]
    X0, X1 = mats(m, fx)
    Y0, Y1 = mats(n, fy)
    T = np.eye(3 * m * n)
    T[0::3, 2::3] = s * 2 / d['a'] * np.kron(Y0, X1)
    T[1::3, 2::3] = s * 2 / d['b'] * np.kron(Y1, X0)
    M.T = T @ M.T
    E = np.eye(6)
    E[:3, 3:] = -s * np.eye(3)
    M.E = E @ M.E
    d['shifted'] = True
    return True


OPS = dict(swap=op_swap, mirror=op_mirror, flip=op_flip, units=op_units, split=op_split, turn=op_turn, reference=op_reference)


def same(A, B, what, tol=1e-8, nat=None, stiff=False):
    """Blocks compared with their own size; nat: the blocks of the series with free edges, to which rounding is relative"""
    A, B = dense(A), dense(B)
    if A.shape != B.shape:
        fail('%s: shape %s, expected %s' % (what, A.shape, B.shape))
    ref_ = B if nat is None else nat
    if ref_.ndim == 1:
        for i in range(3):
            close(A[i::3], B[i::3], tol, '%s (%s)' % (what, 'uvw'[i]), scale=np.abs(B[i::3]).max(initial=0.) + 1e-4 * np.abs(ref_).max(initial=0.) or 1.)
        return
    dg = np.array([np.abs(ref_[i::3, i::3]).max(initial=0.) for i in range(3)])
    for i in range(3):
        for j in range(3):
            s = max(np.sqrt(dg[i] * dg[j]), np.abs(B[i::3, j::3]).max(initial=0.))
            close(A[i::3, j::3], B[i::3, j::3], tol, '%s, block %s%s' % (what, 'uvw'[i], 'uvw'[j]), scale=s or 1.)


def results(s, d, c, pts, nl):
    out = dict(kC=dense(s.calc_kC()), kM=dense(s.calc_kM()), kG=dense(s.calc_kG()), kA=dense(s.calc_kA()),
               cA=dense(s.calc_cA(d['mu'])).imag, fext=np.asarray(s.calc_fext()))
    if nl:
        nx, ny = 2 * d['m'], 2 * d['n']
        out['kC(c)'] = dense(s.calc_kC(c=c, NLgeom=True, nx=nx, ny=ny))
        out['kG(c)'] = dense(s.calc_kG(c=c, NLgeom=True, nx=nx, ny=ny))
        out['fint'] = np.asarray(s.calc_fint(c, nx=nx, ny=ny))
    xs, ys = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    s.strain(c, xs, ys, NLgeom=bool(nl))
    out['strain'] = np.array([s.fields[k] for k in ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')])
    s.stress(c, xs=xs, ys=ys, NLgeom=bool(nl))
    out['stress'] = np.array([s.fields[k] for k in ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')])
    s.uvw(c, xs, ys)
    out['uvw'] = np.array([s.fields[k] for k in 'uvw'])
    return out


def natural(d, key):
    """Sizes of the matrices of the same series with all freedoms"""
    return dict(d, flags=dict.fromkeys(FLAGS, 1.))


def symmetry(case):
    d0 = definition(case)
    for l in d0['lines']:
        l[2] = (l[2], d0['a'] if l[0] == 'y' else d0['b'])
    d1 = copy.deepcopy(d0)
    size = 3 * d0['m'] * d0['n']
    M = Map(size)
    done = [nm for nm, p in case['ops'] if OPS[nm](d1, M, p)]
    nl = case['nl']
    h = sum(d0['plyts'])
    c0 = expand(case['c'], size)
    # displacements of the order of the thickness, so that linear and quadratic strains are of the same order
    c0 *= h
    c0[0::3] *= h / d0['a']
    c0[1::3] *= h / d0['a']
    c1 = M.T @ c0
    p0 = [(x * d0['a'], y * d0['b']) for x, y in case['pts']]
    p1 = [M.point(*p) for p in p0]
    R0 = results(build(d0), d0, c0, p0, nl)
    R1 = results(build(d1), d1, c1, p1, nl)
    T = M.T
    shifted = d1.get('shifted')
    free = build(natural(d0, None))
    nats = dict(kC=dense(free.calc_kC()), kM=dense(free.calc_kM()), kG=dense(free.calc_kG()), kA=dense(free.calc_kA()),
                cA=dense(free.calc_cA(d0['mu'])).imag)
    for k in ('kC', 'kM', 'kG', 'kA', 'cA', 'kC(c)', 'kG(c)'):
        if k not in R0:
            continue
        f = {'kM': M.ms, 'cA': M.ms}.get(k, M.e)
        nat = nats.get(k)
        if nat is None:
            nat = np.abs(R0[k]) + np.abs(nats['kC'])
        if shifted and k in ('kC', 'kM', 'kC(c)', 'kG(c)'):
            # change of basis: rounding is relative to the products
            nat = np.abs(T).T @ (np.abs(R1[k]) / f) @ np.abs(T) + np.abs(nat)
        same(T.T @ R1[k] @ T / f, R0[k], k, 1e-8, nat)
    for k in ('fext', 'fint'):
        if k in R0:
            v = T.T @ R1[k] / M.e
            if shifted:
                sc = np.abs(T).T @ np.abs(R1[k]) / M.e
                close(v, R0[k], 1e-8, k, scale=sc.max() or 1.)
            elif k == 'fint':
                S = np.abs(R0['kC(c)']) @ np.abs(c0)
                same(v, R0[k], k, 1e-8, S)
            else:
                same(v, R0[k], k, 1e-8)
    E = M.E
    e0, e1 = R0['strain'], R1['strain']
    S = np.array([[1.], [1.], [1.], [1 / h], [1 / h], [1 / h]])
    q0 = (np.linalg.solve(E, e1)) / S
    mag = max(np.abs(e0 / S).max(), np.abs(c0).max() / h * (h / min(d0['a'], d0['b']))**2)
    close(q0, e0 / S, 1e-8, 'strains', scale=mag or 1.)
    # resultants are conjugate to the strains: energy per area transforms with e / area
    A = d1['a'] * d1['b'] / (d0['a'] * d0['b'])
    n0, n1 = R0['stress'], R1['stress']
    S6 = np.array([[1.], [1.], [1.], [h], [h], [h]])
    back = (E.T @ n1 * A / M.e) / S6
    sc = np.abs(n0 / S6).max()
    close(back, n0 / S6, 1e-8, 'resultants', scale=sc or 1.)
    if not shifted:
        # displacements through the points: the amplitudes carry the signs and the units
        w0, w1 = R0['uvw'], R1['uvw']
        L = abs(T[2::3, 2::3]).max()
        close(np.abs(w1[2]) / L, np.abs(w0[2]), 1e-8, 'w', scale=np.abs(c0[2::3]).max() or 1.)
        uv0, uv1 = np.hypot(w0[0], w0[1]), np.hypot(w1[0], w1[1]) / L
        close(uv1, uv0, 1e-8, 'in-plane displacement', scale=np.abs(np.delete(c0, np.s_[2::3])).max() or 1.)
    return bool(done), sorted(set(done)) + [case['model'][:5]]


def twice(case):
    """An involution repeated gives the definition back (guards the harness as much as the code)"""
    return symmetry(dict(case, ops=[o for o in case['ops'] for _ in range(2)]))


pt = st.tuples(num(0, 1, 3), num(0, 1, 3)).map(list)
fx = num(-50, 50, 1)
comp = st.one_of(st.none(), st.tuples(num(-9, 9, 1), num(-9, 9, 1)).map(list))
line = st.tuples(st.sampled_from('xy'), num(0, 1, 3), st.tuples(comp, comp, comp).filter(lambda t: any(q is not None for q in t)).map(list)).map(list)
point = st.tuples(num(0, 1, 3), num(0, 1, 3), fx, fx, fx).map(list)


def gen(names, lo=3, loads=True, free=False):
    base = with_(shells(lo=lo, hi=5), N=st.lists(num(-9, 9, 1), min_size=3, max_size=3), flow=st.sampled_from('xy'),
                 beta=num(.1, 9., 2), gamma=num(0., 3., 2), mu=num(.1, 9., 2),
                 points=st.lists(point, max_size=2) if loads else st.just([]), lines=st.lists(line, max_size=2) if loads else st.just([]),
                 pts=st.lists(pt, min_size=1, max_size=3), c=vec(0), nl=st.booleans(),
                 ops=st.lists(st.tuples(st.sampled_from(names), st.integers(0, 11)).map(list), min_size=1, max_size=4))
    if free:
        def fl(c):
            return dict(c, flags=[1. if k[2] in 'uv' else v for k, v in zip(FLAGS, c['flags'])])
        base = base.map(fl)
    return base


GEOM = ['swap', 'mirror', 'mirror', 'flip', 'units', 'split', 'turn']


def modelled(case, op):
    return dict(case, ops=[[op, k] for k in range(2)])


# --------------------------------------------------------------------------
# Assemblies
# --------------------------------------------------------------------------
def assembly(case):
    """Two joined plates in other units, with the axes exchanged, or upside down"""
    from panels.multidomain import MultiDomain
    func = case['func']
    ds = []
    for k in ('p1', 'p2'):
        d = definition(dict(case[k], N=case['N'], flow='x', beta=1., gamma=0., mu=1., points=case['points'], lines=[]))
        ds.append(d)
    along = 'a' if func.endswith('ycte') else 'b'
    if func == 'SB':
        along = 'ab'
    for k in along:
        ds[1][k] = ds[0][k]
    at = 'b' if func.endswith('ycte') else 'a'
    pos = [case['s1'] * ds[0][at], case['s2'] * ds[1][at]]
    sizes = [3 * d['m'] * d['n'] for d in ds]
    new, maps = copy.deepcopy(ds), [Map(s) for s in sizes]
    f1, pos1, done = func, list(pos), []
    for nm, p in case['ops']:
        if nm == 'flip' and not func.startswith('SS') or nm == 'swap' and func == 'SB':
            continue    # the flange of the joint and the lamina it stands on are told apart; the stiffness of a bonded surface is the one along x
        if nm == 'mirror' and (not func.startswith('SS') or min(d['m' if p % 2 == 0 else 'n'] for d in new) < 4):
            continue
        if all(OPS[nm](d, M, p) for d, M in zip(new, maps)):
            done.append(nm)
            if nm == 'swap' and f1 != 'SB':
                f1 = f1[:2] + {'x': 'y', 'y': 'x'}[f1[2]] + 'cte'
            if nm == 'units':
                pos1 = [v * UNITS[p % len(UNITS)][0] for v in pos1]
            if nm == 'mirror' and (p % 2 == 0) == (f1 == 'SSxcte'):
                pos1 = [new[k]['a' if p % 2 == 0 else 'b'] - pos1[k] for k in range(2)]

    def run(dd, fn, ps):
        ss = [build(d) for d in dd]
        conn = dict(p1=ss[0], p2=ss[1], func=fn)
        if fn != 'SB':
            for k in range(2):
                conn[('x' if fn.endswith('xcte') else 'y') + 'cte%d' % (k + 1)] = ps[k]
        md = MultiDomain(ss, [conn])
        return dict(kC=dense(md.calc_kC(silent=True)), kG=dense(md.calc_kG(silent=True)), kM=dense(md.calc_kM(silent=True)),
                    fext=np.asarray(md.calc_fext(silent=True)))
    R0, R1 = run(ds, func, pos), run(new, f1, pos1)
    T = np.zeros((sum(sizes),) * 2)
    T[:sizes[0], :sizes[0]] = maps[0].T
    T[sizes[0]:, sizes[0]:] = maps[1].T
    free = run([dict(d, flags=dict.fromkeys(FLAGS, 1.)) for d in ds], func, pos)
    for k, f in (('kC', maps[0].e), ('kG', maps[0].e), ('kM', maps[0].ms)):
        same(T.T @ R1[k] @ T / f, R0[k], 'assembly ' + k, 1e-8, free[k])
    same(T.T @ R1['fext'] / maps[0].e, R0['fext'], 'assembly fext')
    return bool(done), sorted(set(done)) + [func]


# --------------------------------------------------------------------------
# Stiffened panels
# --------------------------------------------------------------------------
def turned(L, f):
    """A laminate with changed ply directions"""
    return dict(L, stack=f(L['stack']))


def neg(stack):
    return [-t for t in stack]


def bay_units(case, maps, p):
    L, F, m = U = UNITS[p % len(UNITS)]
    case['unit'] = [a * b for a, b in zip(case['unit'], U)]
    case.update(a=case['a'] * L, b=case['b'] * L, r=case['r'] * L, beta=case['beta'] * F / L**2, gamma=case['gamma'] * F / L**3, mu=case['mu'] * m / L**2)
    for q in case['panels']:
        q['N'] = [v * F / L for v in q['N']]
    case['forces'] = [f[:2] + [v * F for v in f[2:]] for f in case['forces']]
    for q in case['stiffs']:
        q['N'] = [v * (F if q['kind'] == '1d' else F / L) for v in q['N']]
        q['forces'] = [f[:2] + [v * F for v in f[2:]] for f in q['forces']]
    for M in maps:
        M.T, M.e, M.ms = L * M.T, M.e * F * L, M.ms * m * L * L
    return True


def swapped(flags, ax):
    fl = dict(zip(FLAGS, flags))
    fl = {(k[0] + {'1': '2', '2': '1'}[k[1]] + k[2:] if k[0] == ax else k): v for k, v in fl.items()}
    return [fl[k] for k in FLAGS]


def bay_mirror(case, maps, p):
    alongx = p % 2 == 0
    mns = [case['mn']] + [q['mn'] for q in case['stiffs'] if q['kind'] == '2d' and q['parts'] != 'base' and 'gone' not in q]
    if (alongx and min(mn[0] for mn in mns) < 4) or (not alongx and case['mn'][1] < 4):
        return False
    n = len(case['panels'])
    if not alongx and (any(q['own'] for q in case['panels']) or any(q['kind'] == '1d' and q['parts'] != 'base' for q in case['stiffs'])):
        return False     # the laminate of the first panel is that of the joint; the flange of a beam has a face
    ax = 'xy'[not alongx]
    case['flags'] = swapped(case['flags'], ax)
    case['skin'] = turned(case['skin'], neg)
    for q in case['panels']:
        q['lam'] = turned(q['lam'], neg)
        q['N'] = [q['N'][0], q['N'][1], -q['N'][2]]
    if case['flow'] == ax:
        case['beta'] = -case['beta']

    def moved(f, comp, at=None):
        f = list(f)
        if at is not None:
            f[at] = 1. - f[at]
        f[2 + comp] = -f[2 + comp]
        return f
    case['forces'] = [moved(f, 0 if alongx else 1, 0 if alongx else 1) for f in case['forces']]
    for q in case['stiffs']:
        q['base'] = turned(q['base'], neg)
        if alongx:
            q['flange'] = turned(q['flange'], neg)
            if q['fflags']:
                q['fflags'] = swapped(q['fflags'], 'x')
            q['N'] = [q['N'][0], q['N'][1], -q['N'][2]]
            q['forces'] = [moved(f, 0, 0) for f in q['forces']]
        else:
            q['flange'] = dict(turned(q['flange'], lambda v: v[::-1]), one=True)
            k = q['at'] % (n + 1) if q['parts'] == 'flange' else 1 + q['at'] % max(n - 1, 1)
            q['at'] = n - k if q['parts'] == 'flange' else n - k - 1
            q['forces'] = [moved(f, 2) for f in q['forces']]
    if not alongx:
        case['panels'].reverse()
    for i, (M, mn) in enumerate(zip(maps, case['maps'])):
        T = np.zeros((3 * mn[0] * mn[1],) * 2)
        A = parity(mn[0]) if alongx else np.eye(mn[0])
        B = np.eye(mn[1]) if alongx or i else parity(mn[1])
        comp = 0 if alongx else 2 if i else 1
        for k in range(3):
            T[k::3, k::3] = np.kron(B, A) * (-1. if k == comp else 1.)
        M.T = T @ M.T
    return True


def bay_turn(case, maps, p):
    """A ply direction is an axis"""
    half = lambda v: [t + 180. if (p >> k) % 2 else t - 180. for k, t in enumerate(v)]
    case['skin'] = turned(case['skin'], half)
    for q in case['stiffs']:
        q['base'], q['flange'] = turned(q['base'], half), turned(q['flange'], half)
    return True


BAYOPS = dict(units=bay_units, mirror=bay_mirror, turn=bay_turn)


def stiffened(case):
    from checks import c19
    from checks.c12 import gridclose, vclose
    case = copy.deepcopy(case)
    case['unit'] = [1., 1., 1.]
    n = len(case['panels'])
    for q in case['stiffs']:
        if n == 1 and q['parts'] != 'flange':
            q['parts'], q['at'] = 'flange', 0
        q['flange']['one'] = True
    if case['twod']:
        for q in case['stiffs']:
            q['kind'] = '2d'
        for q in case['panels']:
            q['own'] = False

    def run(c):
        c19.UNIT[:] = c['unit']
        try:
            bay, dom, panels, stiffs, flanges, off = c19.mk(c)
            bay.flow, bay.beta, bay.gamma, bay.aeromu = c['flow'], c['beta'], c['gamma'] if c['flow'] == 'x' else 0., c['mu']
            for f in c['forces']:
                bay.forces_skin.append([f[0] * bay.a, f[1] * bay.b] + f[2:])
            for q in flanges:
                for f in q['forces']:
                    q['obj'].forces_flange.append([f[0] * bay.a, f[1] * q['bf']] + f[2:])
            R = {k: dense(getattr(bay, 'calc_' + k)(silent=True)) for k in ('kC', 'kG', 'kM', 'kA', 'cA')}
            R['cA'] = R['cA'].imag
            R['fext'] = np.asarray(bay.calc_fext(silent=True))
            return R, off, [q['mn'] for q in flanges]
        finally:
            c19.UNIT[:] = [1., 1., 1.]
    R0, off, mns = run(case)
    free = run(dict(case, flags=[1.] * 24))[0]
    new = copy.deepcopy(case)
    new['maps'] = [case['mn']] + mns
    maps = [Map(3 * m * k) for m, k in new['maps']]
    done = []
    for nm, p in case['ops']:
        if nm == 'units' and any(q['kind'] == '1d' and q['parts'] != 'base' for q in case['stiffs']):
            continue         # recorded finding of C19: the torsion of the flange has no units
        if BAYOPS[nm](new, maps, p):
            done.append(nm if nm != 'mirror' else 'mirror ' + 'xy'[p % 2])
    R1, off1, _ = run(new)
    if list(off) != list(off1):
        fail('sizes %r and %r' % (off, off1))
    # the order of the flanges is that of the stiffeners, which stays
    T = np.zeros((off[-1],) * 2)
    for M, o, q in zip(maps, off, off[1:]):
        T[o:q, o:q] = M.T
    for k in ('kC', 'kG', 'kM', 'kA', 'cA'):
        f = maps[0].ms if k in ('kM', 'cA') else maps[0].e
        floor = [1e-3 * np.abs(free[k][o:q, o:q]).max() for o, q in zip(off, off[1:])]
        gridclose(T.T @ R1[k] @ T / f, R0[k], off, 1e-8, 'stiffened panel ' + k, floor=floor)
    vclose(T.T @ R1['fext'] / maps[0].e, R0['fext'], off, 1e-8, 'stiffened panel fext', scale=np.full(off[-1], np.abs(free['fext']).max() or 1.))
    return bool(done), sorted(set(done)) + sorted({q['kind'] for q in case['stiffs']})


def bays():
    from checks.c19 import BAY, FORCE
    return with_(BAY, twod=st.integers(0, 3), flow=st.sampled_from('xy'), beta=num(.1, 9., 2), gamma=num(0., 3., 2), mu=num(.1, 9., 2),
                 forces=st.lists(FORCE, max_size=2), ops=st.lists(st.tuples(st.sampled_from(['mirror', 'mirror', 'units', 'turn']), st.integers(0, 11)).map(list),
                                                                  min_size=1, max_size=3)).map(
        lambda c: dict(c, mn=[max(4, v) for v in c['mn']], stiffs=[dict(q, mn=[max(4, q['mn'][0]), q['mn'][1]]) for q in c['stiffs']]))


pos = st.one_of(st.sampled_from([0., 1., .5]), num(0, 1, 3))
P = shells(lo=3, hi=4, models=(PLATE,))
RELATIONS = [
    Relation('symmetry', gen(GEOM, lo=3), symmetry, 250, 6000, 8),
    Relation('all_terms', gen(GEOM, lo=4), symmetry, 150, 4000, 4),
    Relation('reference_surface', gen(GEOM + ['reference'] * 6, lo=4, loads=False, free=True), symmetry, 150, 4000, 4),
    Relation('twice', gen(['swap', 'mirror', 'flip'], lo=4), twice, 60, 1000, 2),
    Relation('assembly', st.fixed_dictionaries(dict(p1=P, p2=P, s1=pos, s2=pos, func=st.sampled_from(['SSxcte', 'SSycte', 'BFxcte', 'BFycte', 'SB']),
                                                    N=st.lists(num(-9, 9, 1), min_size=3, max_size=3), points=st.lists(point, max_size=2),
                                                    ops=st.lists(st.tuples(st.sampled_from(GEOM), st.integers(0, 11)).map(list), min_size=1, max_size=4))),
             assembly, 120, 3000, 4),
    Relation('stiffened', bays(), stiffened, 80, 1500, 4),
]
