"""C26: models are independent of one another and of what their callers do with lists, arrays and results"""
import copy
import gc
import importlib
import os
import pickle
import sys
import threading

import numpy as np
from hypothesis import strategies as st

from checks import c18
from checks.c18 import (BAYCALC, BITS, C0, CALCS, LINK, LOAD, MDCALC, N3, addload, ang, baycalc, calc, mdcalc, mkconn, pos, raw)
from checks.c19 import BAY, mk
from checks.common import FLAGS, MATERIALS, dense, expand, fail, num
from core import HarnessError, Relation, Violation

RULE = 'two or more objects calculate something, in turn or at the same time'
ASSUMPTIONS = ['a model that is alone in a new process gives the reference results',
               'an object is used by one thread at a time; matrices, fields and vectors that were returned belong to the caller']
TOL = 1e-12


def preload():
    """What the code under test imports when it needs it, for the new processes not to import it again and again"""
    for m in ('panels.multidomain', 'panels.stiffpanelbay', 'panels.stiffener', 'panels.multidomain.connections', 'matplotlib.pyplot', 'composites', 'scipy.sparse.linalg'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def apart(fn):
    """fn() in a process of its own, that shares no state with this one afterwards"""
    preload()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        gc.freeze()          # the calculations collect garbage
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except Violation as e:
                out = ('fail', str(e))
            except BaseException as e:          # an exception of the code under test
                import traceback
                out = ('error', '%s: %s (%s)' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-500:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        fail('the process died with signal %d' % os.WTERMSIG(status))
    if status or not data:
        raise HarnessError('child ended with status %d' % status)
    kind, out = pickle.loads(data)
    if kind != 'ok':
        fail(out)
    return out


class Pool:
    """The lists, arrays and material constants that the objects are built from"""

    def __init__(self, case, shared=True):
        p = case['pool']
        n = len(p['stack'])
        self.stack = [float(v) for v in p['stack']]
        self.plyts = [.001 * v for v in (p['t'] * n)[:n]]
        self.props = [MATERIALS[v] for v in (p['mat'] * n)[:n]]
        self.rhos = [500. * v for v in (p['rho'] * n)[:n]]
        self.prop = list(MATERIALS[p['mat'][0]])
        self.weak = [[.5 * v if k not in (2, 7, 8) else v for k, v in enumerate(q)] for q in self.props]
        self.c = expand(case['c'], 600, .01)
        self.xs, self.ys = np.array([[.1, .5], [.9, .3]]), np.array([[.2, .7], [.6, 1.]])
        self.bays = copy.deepcopy([o['bay'] for o in case['objs'] if o['kind'] == 'bay'])
        self.F = {}

    def field(self, nx, ny):
        if (nx, ny) not in self.F:
            import ref
            k = np.arange(nx * ny).reshape(nx, ny, 1, 1)
            self.F[nx, ny] = (1.5 + np.sin(k)) * ref.abd(self.stack, self.plyts, self.props, 0.)
        return self.F[nx, ny]

    def state(self):
        return [self.stack, self.plyts, self.props, self.rhos, self.prop, self.weak, self.c, self.xs, self.ys, self.bays, self.F]


def equal(a, b):
    if isinstance(a, np.ndarray):
        return type(b) is type(a) and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(map(str, a)) == sorted(map(str, b)) and all(equal(a[k], b[k]) for k in a)
    return a == b


def mkshell(d, pool):
    from panels import Shell
    props = pool.weak if d['weak'] else pool.props
    kw = dict(plyts=pool.plyts, laminaprops=props, rhos=pool.rhos) if d['perply'] else dict(plyt=pool.plyts[0], laminaprop=props[0] if d['weak'] else pool.prop, rho=pool.rhos[0])
    s = Shell(a=d['a'], b=d['b'], r=d['r'] or None, m=d['mn'][0], n=d['mn'][1], stack=pool.stack, offset=d['offset'] * .001, **kw)
    s.out_num_cores = 1
    for k, v in zip(FLAGS, d['flags']):
        setattr(s, k, v)
    s.Nxx, s.Nyy, s.Nxy = d['N']
    s.group = 'g'
    s.flow, s.Mach, s.rho_air, s.V = 'x', 2., 1.2, 600.
    for L in d['loads']:
        addload(s, L)
    return s


def make(o, pool, k):
    """k: position among the objects of its kind"""
    if o['kind'] == 'shell':
        return mkshell(o['shell'], pool)
    if o['kind'] == 'bay':
        b = mk(pool.bays[k])[0]
        b.beta, b.gamma, b.aeromu = 1.5, .3, .7
        return b
    from panels.multidomain import MultiDomain
    ss = [mkshell(dict(d, a=o['shells'][0]['a'], b=o['shells'][0]['b']), pool) for d in o['shells']]
    order = list(range(len(ss)))
    md = MultiDomain(ss, [mkconn(ss, l, dict(order=order)) for l in o['links']])
    md.out_num_cores = 1
    return md


def size(o, obj):
    if o['kind'] == 'shell':
        return 3 * obj.m * obj.n
    if o['kind'] == 'bay':
        return obj.get_size()
    return sum(3 * p.m * p.n for p in obj.panels)


MESHES = ('uvw mesh', 'strain mesh', 'stress mesh')


def mesh(s, what, c):
    if what == 'uvw mesh':
        m, f = s.uvw(c, gridx=3, gridy=4)
        return dict({k: f[k] for k in ('u', 'w', 'phiy')}, Xs=m['Xs'], Ys=m['Ys'])
    if what == 'strain mesh':
        m, f = s.strain(c, gridx=3, gridy=4, NLgeom=False)
        return dict({k: f[k] for k in ('exx', 'kxy')}, Xs=m['Xs'], Ys=m['Ys'])
    m, f = s.stress(c, gridx=3, gridy=4, NLgeom=False)
    return dict({k: f[k] for k in ('Nxx', 'Mxy')}, Xs=m['Xs'], Ys=m['Ys'])


def point(o, obj, pool, what):
    """Calculations with arrays of the caller"""
    c = pool.c[:size(o, obj)]
    if what == 'grid':
        return {k: obj.uvw(c, xs=pool.xs, ys=pool.ys)[1][k] for k in ('u', 'w')}
    if what in MESHES:
        return mesh(obj, what, c)
    if what == 'recover':
        f = obj.stress(c, xs=pool.xs, ys=pool.ys, NLgeom=True)[1]
        return {k: f[k] for k in ('exx', 'Nxx', 'Mxy')}
    F = pool.field(obj.nx, obj.ny)
    if what == 'kC(F)':
        return dict(K=obj.calc_kC(c=c, ABDnxny=F, NLgeom=True, silent=True))
    if what == 'kG(F)':
        return dict(K=obj.calc_kG(c=c, ABDnxny=F, NLgeom=True, silent=True))
    return dict(f=obj.calc_fint(c, ABDnxny=F, silent=True))


OWN = ('grid',) + MESHES + ('recover', 'kC(F)', 'kG(F)', 'fint(F)')


def run(o, obj, pool, op, case):
    ws = dict(shell=CALCS + OWN, bay=BAYCALC, md=MDCALC)[o['kind']]
    what = ws[op['what'] % len(ws)]
    if o['kind'] == 'bay':
        out = baycalc(obj, what, case['c'])
    elif o['kind'] == 'md':
        out = mdcalc(obj, what, case['c'], op['inc'])
    elif what in OWN:
        out = point(o, obj, pool, what)
    else:
        out = calc(obj, what, case['c'], op['inc'])
    copies = {k: np.array(dense(v)) for k, v in out.items()}
    if op['spoil']:
        spoil(out)
    return what, copies


def spoil(out):
    """The caller overwrites what it got"""
    for v in out.values():
        x = raw(v)
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fc' and x.flags.writeable:
            x[...] = 7e77


def together(case, only=None, threads=False):
    """Results of the objects (or of one of them), each with its own calculations in order"""
    pool = Pool(case)
    keep = copy.deepcopy(pool.state())
    objs, seen = {}, {}
    for i, o in enumerate(case['objs']):
        k = seen[o['kind']] = seen.get(o['kind'], -1) + 1
        if only in (None, i):
            objs[i] = make(o, pool, k)
            if o['kind'] == 'shell':
                pool.field(objs[i].nx, objs[i].ny)
    keep = keep[:-1] + [copy.deepcopy(pool.F)]
    res = {i: [] for i in objs}
    todo = [(op['at'] % len(case['objs']), op) for op in case['ops']]
    if threads:
        errors, start = [], threading.Barrier(len(objs))

        def work(i):
            try:
                start.wait()
                for j, op in todo:
                    if j == i:
                        res[i].append(run(case['objs'][i], objs[i], pool, op, case))
            except BaseException as e:
                errors.append(e)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ts = [threading.Thread(target=work, args=(i,)) for i in objs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
        if errors:
            raise errors[0]
    else:
        for i, op in todo:
            if i in objs:
                res[i].append(run(case['objs'][i], objs[i], pool, op, case))
    now = pool.state()
    for nm, a, b in zip(('stack', 'plyts', 'laminaprops', 'rhos', 'laminaprop', 'laminaprops of the weak panels', 'vector', 'xs', 'ys', 'definition of the stiffened panels', 'ABDnxny'), keep, now):
        if not equal(a, b):
            fail('%s of the caller changed from %r to %r' % (nm, a, b))
    return res


def check(case, threads):
    got = apart(lambda: together(case, threads=threads))
    used = 0
    for i, o in enumerate(case['objs']):
        if not got[i]:
            continue
        used += 1
        exp = apart(lambda: together(dict(case, ops=[dict(op, spoil=False) for op in case['ops']]), only=i))[i]
        for (w, a), (w2, b) in zip(got[i], exp):
            for k in b:
                x, y = a[k], b[k]
                if x.shape != y.shape:
                    fail('%s %s of object %d (%s): shape %s, alone %s' % (w, k, i, o['kind'], x.shape, y.shape))
                s = np.abs(y).max(initial=0.)
                if not np.isfinite(x).all() or np.abs(x - y).max(initial=0.) > TOL * s:
                    fail('%s %s of object %d (%s) differs from that of the object alone by %.3g of %.3g' % (w, k, i, o['kind'], np.abs(x - y).max(), s))
    return used > 1, sorted({o['kind'] for i, o in enumerate(case['objs']) if got[i]}) + ['spoiled'] * any(op['spoil'] for op in case['ops'])


def interleaved(case):
    return check(case, False)


def threads(case):
    return check(case, True)


def jumble(case):
    """Domains of one size, that calculate the same things again and again in threads that change place very often"""
    def go():
        pool = Pool(dict(case, objs=[]))
        objs = []
        for d in case['objs']:
            s = mkshell(dict(d, mn=case['mn']), pool)
            for k in range(case['loads']):
                s.add_point_load((.31 * k) % 1 * s.a, (.17 * k) % 1 * s.b, *d['N'])
            objs.append(s)
            pool.field(s.nx, s.ny)
        if case['joint']:
            from panels.multidomain import MultiDomain
            o = dict(i=0, j=1, func=case['joint'], s=[.5, .5])
            objs += [MultiDomain(p, [mkconn(p, o, dict(order=[0, 1]))]) for p in (objs[:2], [mkshell(dict(d, mn=case['mn']), pool) for d in case['objs'][1:3]])]
        names = CALCS + OWN

        def one(obj, q):
            if hasattr(obj, 'panels'):
                out = dict(conn=obj.get_kC_conn())
            elif names[q % len(names)] in OWN:
                out = point(dict(kind='shell'), obj, pool, names[q % len(names)])
            else:
                out = calc(obj, names[q % len(names)], case['c'], 2.)
            return [np.array(dense(v)) for v in out.values()]
        exp = [[one(o, q) for q in case['what']] for o in objs]
        errors, start = [], threading.Barrier(len(objs))

        def work(i):
            try:
                start.wait()
                for t in range(case['times']):
                    for k in range(len(case['what'])):
                        k = (k + i) % len(case['what'])
                        for x, y in zip(one(objs[i], case['what'][k]), exp[i][k]):
                            if x.shape != y.shape or not np.abs(x - y).max(initial=0.) <= TOL * np.abs(y).max(initial=0.):
                                errors.append(Violation('%s of object %d differs between threads and one thread' % (names[case['what'][k] % len(names)], i)))
                                return
            except BaseException as e:
                errors.append(e)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(objs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        return len(objs)
    return apart(go) > 1, ['jumble']


# Objects that differ in one datum: nothing that was calculated for one is taken for the other
def definition(case, change):
    """A function that makes the object with the changes and calculates"""
    kind = case['kind']
    Ds = [c18.start(dict(p, a=case['a'], b=case['b'])) for p in case['panels']]
    for D in Ds:
        D['parts'] = False
    dm = dict(order=list(range(len(Ds))), links=list(case['links']))
    for op in case['base'] + ([change] if change else []):
        if op['do'] == 'slide':
            dm['links'] = [dict(dm['links'][0], s=op['v'])] + dm['links'][1:]
        elif op['do'] == 'link':
            dm['links'] = [op['v']] + dm['links'][1:]
        else:
            D = Ds[op.get('i', 0) % len(Ds)]
            c18.change(D, c18.fresh(D), op)

    def go():
        out = []
        if kind == 'shell':
            s = c18.fresh(Ds[0])
            names = CALCS + MESHES + MESHES
        else:
            s = c18.mkmd(Ds, dm)[0]
            names = MDCALC
        for w in case['what']:
            w = names[w % len(names)]
            if w in MESHES:
                r = mesh(s, w, expand(case['c'], 3 * s.m * s.n, .01))
            else:
                r = (mdcalc if kind == 'md' else calc)(s, w, case['c'], 2.)
            out.append((w, {k: np.array(dense(v)) for k, v in r.items()}))
            spoil(r)
        return out
    return go


def near(case):
    makers = [definition(case, ch) for ch in [None] + case['changes']]
    order = list(range(len(makers))) + [0]
    got = apart(lambda: [makers[i]() for i in order])
    exp = [apart(m) for m in makers]
    differ = False
    for i, g in zip(order, got):
        for (w, a), (_, b), (_, z) in zip(g, exp[i], exp[0]):
            for k in b:
                x, y = a[k], b[k]
                if x.shape != y.shape or not np.abs(x - y).max(initial=0.) <= TOL * np.abs(y).max(initial=0.):
                    fail('%s %s of a model (%s) after those that differ in one datum, or before: not that of the model alone' % (w, k, case['kind']))
                differ |= x.shape != z[k].shape or not np.array_equal(y, z[k])
    return differ, sorted({ch['do'] for ch in case['changes']})


def swapped(X, Y, path):
    """X with one datum of Y"""
    X = copy.deepcopy(X)
    x, y = X, Y
    for k in path[:-1]:
        x, y = x[k], y[k]
    x[path[-1]] = copy.deepcopy(y[path[-1]])
    return X


def near_bay(case):
    defs = [case['bay']] + [swapped(case['bay'], case['other'], p) for p in case['paths']]

    def maker(d):
        def go():
            b = mk(copy.deepcopy(d))[0]
            b.beta, b.gamma, b.aeromu = 1.5, .3, .7
            out = []
            for w in case['what']:
                r = baycalc(b, w, case['c'])
                out.append((w, {k: np.array(dense(v)) for k, v in r.items()}))
                spoil(r)
            return out
        return go
    makers = [maker(d) for d in defs]
    order = list(range(len(makers))) + [0]
    got = apart(lambda: [makers[i]() for i in order])
    exp = [apart(m) for m in makers]
    differ = False
    for i, g in zip(order, got):
        for (w, a), (_, b), (_, z) in zip(g, exp[i], exp[0]):
            for k in b:
                x, y = a[k], b[k]
                if x.shape != y.shape or not np.abs(x - y).max(initial=0.) <= TOL * np.abs(y).max(initial=0.):
                    fail('%s %s of a stiffened panel after those that differ in one datum, or before: not that of the panel alone' % (w, k))
                differ |= k not in z or x.shape != z[k].shape or not np.array_equal(y, z[k])
    return differ, sorted({str(p[-1]) for p in case['paths']})


SHELL = st.fixed_dictionaries(dict(a=num(.5, 2, 1), b=num(.5, 2, 1), r=st.sampled_from([0., 0., .8, 3.]), mn=st.tuples(st.integers(2, 4), st.integers(2, 4)).map(list),
                                   flags=BITS, offset=st.integers(-4, 4), perply=st.booleans(), weak=st.sampled_from([False, False, True]), N=N3, loads=st.lists(LOAD, max_size=2)))
OBJ = st.one_of(st.fixed_dictionaries(dict(kind=st.just('shell'), shell=SHELL)), st.fixed_dictionaries(dict(kind=st.just('shell'), shell=SHELL)),
                st.fixed_dictionaries(dict(kind=st.just('md'), shells=st.lists(SHELL, min_size=2, max_size=3), links=st.lists(LINK, min_size=1, max_size=2))),
                st.fixed_dictionaries(dict(kind=st.just('bay'), bay=BAY)))


def twins(t):
    """Objects that only differ in a few data: the second starts from the first"""
    case, same = t
    o = case['objs']
    if same and o[0]['kind'] == 'shell' and o[1]['kind'] == 'shell':
        s = dict(o[0]['shell'], **{k: o[1]['shell'][k] for k in same})
        case = dict(case, objs=[o[0], dict(kind='shell', shell=s)] + o[2:])
    return case


OP = st.fixed_dictionaries(dict(at=st.integers(0, 2), what=st.integers(0, 10**4), inc=st.sampled_from([1., 2., -.5]), spoil=st.booleans()))
CASE = st.tuples(st.fixed_dictionaries(dict(pool=st.fixed_dictionaries(dict(
    stack=st.lists(ang, min_size=1, max_size=3), t=st.lists(st.integers(1, 4), min_size=1, max_size=3), mat=st.lists(st.integers(0, 3), min_size=1, max_size=3),
    rho=st.lists(st.integers(1, 5), min_size=1, max_size=3))), objs=st.lists(OBJ, min_size=2, max_size=3), c=C0, ops=st.lists(OP, min_size=3, max_size=9))),
    st.lists(st.sampled_from(['a', 'b', 'r', 'mn', 'flags', 'offset', 'perply', 'weak', 'N', 'loads']), max_size=4, unique=True)).map(twins)

CHEAP = [(CALCS + OWN).index(k) for k in ('fext', 'fext', 'spring', 'uvw', 'uvw mesh', 'size')]
JUMBLE = st.fixed_dictionaries(dict(
    pool=st.fixed_dictionaries(dict(stack=st.lists(ang, min_size=1, max_size=2), t=st.lists(st.integers(1, 4), min_size=1, max_size=2), mat=st.lists(st.integers(0, 3), min_size=1, max_size=2),
                                    rho=st.lists(st.integers(1, 5), min_size=1, max_size=2))),
    mn=st.tuples(st.integers(2, 4), st.integers(2, 4)).map(list), objs=st.lists(SHELL, min_size=3, max_size=4), loads=st.sampled_from([0, 10, 40]),
    joint=st.sampled_from([None, 'SSxcte', 'SSycte', 'SB', 'BFycte']), c=C0, what=st.lists(st.one_of(st.integers(0, 10**4), st.sampled_from(CHEAP)), min_size=1, max_size=4), times=st.sampled_from([4, 12, 30])))

SINGLE = st.one_of(*c18.LAM, *c18.GEO, *c18.STATE)
OFPANEL = st.one_of(*c18.PANELOPS, st.tuples(pos, pos).map(lambda v: dict(do='slide', v=list(v))), LINK.map(lambda v: dict(do='link', v=v)))
NEAR = dict(a=num(.5, 2, 1), b=num(.5, 2, 1), c=C0, what=st.lists(st.integers(0, 10**4), min_size=5, max_size=9))
PANEL = st.fixed_dictionaries({k: v for k, v in c18.BASE.items() if k not in 'abc'})
NEAR = st.one_of(
    st.fixed_dictionaries(dict(NEAR, kind=st.just('shell'), panels=st.lists(PANEL, min_size=1, max_size=1), links=st.just([]), base=st.lists(SINGLE, max_size=3),
                               changes=st.lists(SINGLE, min_size=2, max_size=4))),
    st.fixed_dictionaries(dict(NEAR, kind=st.just('md'), panels=st.lists(PANEL, min_size=2, max_size=3), links=st.lists(LINK, min_size=1, max_size=2), base=st.lists(OFPANEL, max_size=3),
                               changes=st.lists(OFPANEL, min_size=2, max_size=4))))

LAMKEYS = ('stack', 't', 'mat', 'rho', 'one')
PATHS = [['a'], ['b'], ['r'], ['mn'], ['flags']] + [['skin', k] for k in LAMKEYS] + [['panels', 0, k] for k in ('width', 'N')] + [['panels', 0, 'lam', k] for k in LAMKEYS] + [
    ['stiffs', 0, k] for k in ('bb', 'bf', 'rho', 'N', 'mn', 'fflags', 'forces', 'at')] + [['stiffs', 0, q, k] for q in ('base', 'flange') for k in LAMKEYS]
NEARBAY = st.fixed_dictionaries(dict(bay=BAY, other=BAY, paths=st.lists(st.sampled_from(PATHS), min_size=2, max_size=4), c=C0,
                                     what=st.lists(st.sampled_from(BAYCALC), min_size=4, max_size=7)))

RELATIONS = [
    Relation('interleaved', CASE, interleaved, 120, 3000, 8),
    Relation('threads', CASE, threads, 100, 2500, 8),
    Relation('near', NEAR, near, 130, 3000, 8),
    Relation('near_bay', NEARBAY, near_bay, 110, 3000, 8),
    Relation('jumble', JUMBLE, jumble, 80, 2000, 8),
]
