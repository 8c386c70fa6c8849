"""C18: results do not depend on the history of the object (histories of calculations, changes of the definition, save and load)"""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.common import CYL, FLAGS, MATERIALS, PLATE, close, dense, expand, fail, num
from core import Relation

RULE = 'the history changes the definition after a calculation and calculates again (saved: loads of more than one kind)'
ASSUMPTIONS = ['the numbers of integration points nx and ny belong to the definition (they only grow with the number of terms)',
               'data given per ply hold until they are set to None']
TOL = 1e-11


# loads that can be saved: plain functions of this module
def lx(t):
    return 1.5 + t


def ly(t):
    return -2. * t * t


FN = dict(n=None, x=lx, y=ly)

# --------------------------------------------------------------------------
# One domain.  D is the definition: everything that was set by the user
# --------------------------------------------------------------------------
ATTR = ('a', 'b', 'r', 'm', 'n', 'nx', 'ny', 'offset', 'stack', 'plyt', 'laminaprop', 'rho', 'plyts', 'laminaprops', 'rhos',
        'x1', 'x2', 'y1', 'y2', 'Nxx', 'Nyy', 'Nxy', 'Nxx_cte', 'Nyy_cte', 'Nxy_cte', 'flow', 'beta', 'gamma', 'Mach', 'rho_air', 'V',
        'force_orthotropic_laminate', 'group', 'model') + FLAGS


def start(case):
    D = dict.fromkeys(FLAGS, 1.)
    D.update(zip(FLAGS, case['flags']))
    D.update(a=case['a'], b=case['b'], r=case['r'] or None, m=case['mn'][0], n=case['mn'][1], nx=2 * case['mn'][0], ny=2 * case['mn'][1],
             offset=0., stack=list(case['stack']), plyt=.002, laminaprop=MATERIALS[0], rho=1500., plyts=None, laminaprops=None, rhos=None,
             x1=-1, x2=1, y1=-1, y2=1, Nxx=0., Nyy=0., Nxy=0., Nxx_cte=0., Nyy_cte=0., Nxy_cte=0., flow='x', beta=None, gamma=None,
             Mach=2., rho_air=1.2, V=600., force_orthotropic_laminate=False, group='g', model=None, loads=[])
    return D


def addload(s, L):
    if L[0] == 'point':
        s.add_point_load(L[1] * s.a, L[2] * s.b, *L[3], cte=L[4])
    elif L[0] == 'pd':
        s.add_point_pd(L[1] * s.a, L[2] * s.b, 5., L[3][0], 6., L[3][1], 7., L[3][2], cte=L[4])
    elif L[0] in ('pdx', 'pdy'):
        fs = [FN[k] for k in L[3]]
        ks = [None if f is None else k for f, k in zip(fs, (5., 6., 7.))]
        add = s.add_distr_pd_fixed_x if L[0] == 'pdx' else s.add_distr_pd_fixed_y
        add(L[1] * (s.a if L[0] == 'pdx' else s.b), *ks, *fs, cte=L[4])
    else:
        fs = [FN[k] for k in L[3]]
        add = s.add_distr_load_fixed_x if L[0] == 'linex' else s.add_distr_load_fixed_y
        add(L[1] * (s.a if L[0] == 'linex' else s.b), *fs, cte=L[4])


def fresh(D, **kw):
    from panels import Shell
    s = Shell(a=D['a'], b=D['b'], m=D['m'], n=D['n'])
    s.out_num_cores = 1
    for k in ATTR:
        setattr(s, k, copy.deepcopy(D[k]))
    at = s.a, s.b
    for L, a, b in D['loads']:
        s.a, s.b = a, b          # where the load was when it was added
        addload(s, L)
    s.a, s.b = at
    return s


LISTS = ('plyt', 'plyts'), ('rho', 'rhos'), ('laminaprop', 'laminaprops')


def change(D, s, op):
    """Applies a change to the definition and to the object"""
    k = op['do']

    def put(**kw):
        for q, v in kw.items():
            D[q] = v
            setattr(s, q, copy.deepcopy(v))
    if k == 'r':
        if op['v'] or D['model'] != CYL:
            put(r=op['v'])
    elif k == 'model':
        put(model=[PLATE, CYL, None][op['v']])
        if D['model'] == CYL and not D['r']:
            put(r=2.5)
    elif k == 'mn':
        put(m=op['v'][0], n=op['v'][1])
    elif k == 'ab':
        if not D['parts']:
            put(a=op['v'][0], b=op['v'][1])
    elif k == 'points':
        put(nx=op['v'][0], ny=op['v'][1])
    elif k == 'flags':
        put(**{FLAGS[i]: v for i, v in op['v']})
    elif k == 'offset':
        put(offset=op['v'] * .001)
    elif k == 'ortho':
        put(force_orthotropic_laminate=op['v'])
    elif k == 'stack':
        st_ = list(op['v'])
        if D['plyts'] is not None or D['laminaprops'] is not None or D['rhos'] is not None:      # per-ply data: the number of plies stays
            st_ = (st_ * len(D['stack']))[:len(D['stack'])]
        put(stack=st_)
    elif k == 'angle':
        i = op['v'][0] % len(D['stack'])
        D['stack'] = list(D['stack'])
        D['stack'][i] = op['v'][1]
        s.stack[i] = op['v'][1]          # in place
    elif k == 'scalars':
        w = op['v']
        if w[0] is not None:
            put(plyt=w[0] * .001, **dict(plyts=None) if w[3] else {})
        if w[1] is not None:
            put(laminaprop=MATERIALS[w[1] % 3], **dict(laminaprops=None) if w[3] else {})
        if w[2] is not None:
            put(rho=w[2] * 500., **dict(rhos=None) if w[3] else {})
    elif k == 'lists':
        N = len(D['stack'])
        w = op['v']
        if w[0] is not None:
            put(plyts=[.001 * (1 + (w[0] + i // w[3]) % 4) for i in range(N)])
        if w[1] is not None:
            put(laminaprops=[MATERIALS[(w[1] + i // w[3]) % 4] for i in range(N)])
        if w[2] is not None:
            put(rhos=[500. * (1 + (w[2] + i // w[3]) % 4) for i in range(N)])
    elif k == 'confirm':          # says explicitly what would be chosen otherwise, and then changes what it would be chosen from
        which, v, w = op['v']
        if which == 0 and D['model'] is None:
            put(model=CYL if D['r'] else PLATE)
            if D['model'] == PLATE or v:
                put(r=v)
        elif which and D[LISTS[which - 1][1]] is None:
            one, many = LISTS[which - 1]
            put(**{many: [D[one] for i in D['stack']]})
            put(**{one: MATERIALS[w] if which == 3 else (.001 if which == 1 else 500.) * (w + 1)})
    elif k == 'thicker':
        if D['plyts'] is not None:       # in place
            i = op['v'] % len(D['plyts'])
            D['plyts'] = list(D['plyts'])
            D['plyts'][i] *= 1.37
            s.plyts[i] *= 1.37
    elif k == 'N':
        put(**dict(zip(('Nxx', 'Nyy', 'Nxy'), op['v'])))
    elif k == 'Ncte':
        put(**dict(zip(('Nxx_cte', 'Nyy_cte', 'Nxy_cte'), op['v'])))
    elif k == 'part':
        D['parts'] = True
        x1, x2, y1, y2 = op['v']
        put(x1=x1 * D['a'], x2=x2 * D['a'], y1=y1 * D['b'], y2=y2 * D['b'])
    elif k == 'whole':
        D['parts'] = False
        put(x1=-1, x2=1, y1=-1, y2=1)
    elif k == 'air':
        put(**dict(zip(('Mach', 'rho_air', 'V', 'beta', 'gamma', 'flow'), op['v'])))
    elif k == 'load':
        addload(s, op['v'])
        D['loads'] = D['loads'] + [(op['v'], s.a, s.b)]
    elif k == 'unload':
        D['loads'] = []
        for q in ('point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds', 'distr_pds_inc'):
            setattr(s, q, [])


FIELDS = ('u', 'v', 'w', 'phix', 'phiy', 'exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy', 'Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


def calc(s, what, cv, inc):
    """A dict of arrays; runs on any object with the definition"""
    size = 3 * s.m * s.n
    c = expand(cv, size, .01)
    keep = c.copy()
    pts = np.array([[.1, .5], [.9, .3]]) * s.a, np.array([[.2, .7], [.6, 1.]]) * s.b
    kw = dict(silent=True)
    if what == 'kC':
        out = dict(kC=s.calc_kC(**kw))
    elif what == 'kC(c)':
        out = dict(kC=s.calc_kC(c=c, NLgeom=True, **kw))
    elif what == 'kC(c_cte)':
        out = dict(kC=s.calc_kC(c_cte=c, **kw))
    elif what == 'kG':
        out = dict(kG=s.calc_kG(**kw))
    elif what == 'kG(c)':
        out = dict(kG=s.calc_kG(c=c, **kw))
    elif what == 'kT':
        out = dict(kT=s.calc_kT(c=c, **kw))
    elif what == 'kM':
        out = dict(kM=s.calc_kM(**kw))
    elif what == 'kA':
        out = dict(kA=s.calc_kA(**kw))
    elif what == 'cA':
        out = dict(cA=s.calc_cA(1.7, **kw))
    elif what == 'fext':
        out = dict(fext=s.calc_fext(inc=inc, **kw))
    elif what == 'fint':
        out = dict(fint=s.calc_fint(c, **kw))
    elif what == 'spring':
        out = dict(spring=s.calc_stiffness_point_constraint(.3 * s.a, .8 * s.b, phix=True, phiy=True))
    elif what == 'size':
        out = dict(size=np.array([s.get_size()]))
    elif what == 'uvw':
        m, f = s.uvw(c, xs=pts[0], ys=pts[1])
        out = {k: f[k] for k in FIELDS[:5]}
    elif what == 'strain':
        m, f = s.strain(c, xs=pts[0], ys=pts[1], NLgeom=inc > 1)
        out = {k: f[k] for k in FIELDS[5:11]}
    elif what == 'stress':
        m, f = s.stress(c, xs=pts[0], ys=pts[1], NLgeom=inc > 1)
        out = {k: f[k] for k in FIELDS[5:]}
    if not np.array_equal(c, keep):
        fail('%s changed the vector it was given' % what)
    return out


def same(got, exp, what):
    for k in exp:
        a, b = dense(got[k]), dense(exp[k])
        if a.shape != b.shape:
            fail('%s: shape %s, that of a new object %s' % (what, a.shape, b.shape))
        close(a, b, TOL, '%s (%s) differs from that of a new object with the same definition' % (what, k), scale=np.abs(b).max(initial=0.) or 1.)


def raw(A):
    """The stored numbers of a result (not a copy)"""
    return A.data if hasattr(A, 'tocsr') else np.asarray(A)


class Kept:
    """Results that were handed out stay as they were"""

    def __init__(self):
        self.all = []

    def add(self, out, what):
        self.all += [(what + ' ' + k, raw(v), raw(v).copy()) for k, v in out.items()]

    def check(self):
        for k, v, w in self.all:
            if not np.array_equal(v, w):
                fail('%s that was returned before was changed by a later call' % k)


def saveload(s, module):
    tmp = tempfile.mkdtemp(prefix='c18_')
    try:
        old = s.name
        # the kind of file may also be a part of the name or of the folder
        kind = type(s).__name__
        sub, name = [('', 'x'), ('my.%s.files' % kind, 'x'), ('', 'x.%s_2' % kind)][int(s.a * 1000) % 3]
        os.makedirs(os.path.join(tmp, sub), exist_ok=True)
        s.name = os.path.join(tmp, sub, name)
        s.save()
        files = os.listdir(os.path.join(tmp, sub))
        if len(files) != 1:
            fail('save wrote %s' % files)
        t = module.load(s.name if int(s.a * 100) % 2 else os.path.join(tmp, sub, files[0]))
        t.name = s.name = old
        return t
    finally:
        shutil.rmtree(tmp)


def shell(case):
    from panels import shell as module
    D = start(case)
    D['parts'] = False
    s = fresh(D)
    kept = Kept()
    did, again = False, False
    changed = False
    for op in case['ops']:
        if op['do'] == 'calc':
            D['nx'], D['ny'] = max(D['nx'], D['m']), max(D['ny'], D['n'])
            # the reference has never calculated anything
            same_obj = fresh(D)
            exp = calc(same_obj, op['what'], case['c'], op['inc'])
            got = calc(s, op['what'], case['c'], op['inc'])
            same(got, exp, op['what'])
            kept.add(got, op['what'])
            again |= changed and did
            did, changed = True, False
        elif op['do'] == 'save':
            t = saveload(s, module)
            if type(t) is not type(s):
                fail('load returned %r' % type(t))
            if op['v']:
                s, t = t, s
            # the one of both that is left behind, and the loads of the other
            D['nx'], D['ny'] = max(D['nx'], D['m']), max(D['ny'], D['n'])
            for what in ('kC', 'kG', 'kM', 'fext', 'uvw'):
                same(calc(t, what, case['c'], 1.7), calc(fresh(D), what, case['c'], 1.7), what + ' of the other one after saving')
            same(calc(s, 'fext', case['c'], 1.7), calc(fresh(D), 'fext', case['c'], 1.7), 'fext after saving')
            changed = True
        else:
            change(D, s, op)
            changed = True
    kept.check()
    return again, sorted({o['do'] for o in case['ops']} - {'calc'})[:6]


def saved(case):
    """A loaded shell has every load of the one that was saved, and so has that one"""
    from panels import shell as module
    D = start(case)
    s = fresh(D)
    for o in case['ops']:
        change(D, s, o)
    if case['before']:
        calc(s, case['before'], case['c'], 1.)
    D['nx'], D['ny'] = max(D['nx'], D['m']), max(D['ny'], D['n'])
    t = saveload(s, module)
    for q, who in ((t, 'the loaded one'), (s, 'the saved one')):
        for what in ('fext', 'kG', 'kC'):
            same(calc(q, what, case['c'], 2.5), calc(fresh(D), what, case['c'], 2.5), '%s of %s' % (what, who))
    return len({o['v'][0] for o in case['ops'] if o['do'] == 'load'}) > 1, sorted({o['v'][0] for o in case['ops'] if o['do'] == 'load'})


CALCS = ('kC', 'kC(c)', 'kC(c_cte)', 'kG', 'kG(c)', 'kT', 'kM', 'kA', 'cA', 'fext', 'fint', 'spring', 'size', 'uvw', 'strain', 'stress')
opt = lambda x: st.one_of(st.none(), x)
ang = st.sampled_from([0., 90., 45., -45., 30., -20.])
f3 = st.lists(st.one_of(st.just(0.), num(-5, 5, 1)), min_size=3, max_size=3)
pos = st.one_of(st.sampled_from([0., 1.]), num(0, 1, 2))
fns = st.lists(st.sampled_from('nxy'), min_size=3, max_size=3).filter(lambda t: any(k != 'n' for k in t))
LOAD = st.one_of(st.tuples(st.sampled_from(['point', 'pd']), pos, pos, f3, st.booleans()).map(list),
                 st.tuples(st.sampled_from(['linex', 'liney', 'pdx', 'pdy']), pos, pos, fns, st.booleans()).map(list))
part = st.tuples(num(0, .4, 2), num(.5, 1, 2), num(0, .4, 2), num(.5, 1, 2)).map(list)
w3 = [opt(st.integers(1, 5))] * 3
ws = st.tuples(*w3, st.booleans()).map(list)
wl = st.tuples(*w3, st.sampled_from([1, 9])).map(list)


def op(name, v):
    return v.map(lambda x: dict(do=name, v=x))


N3 = st.lists(st.one_of(st.just(0.), num(-9e3, 9e3, 0)), min_size=3, max_size=3)
flagsop = op('flags', st.lists(st.tuples(st.integers(0, 23), st.sampled_from([0., 1.])).map(list), min_size=1, max_size=5))
CONFIRM = op('confirm', st.tuples(st.integers(0, 3), st.sampled_from([None, .8, 2., 7.]), st.integers(0, 2)).map(list))
LAM = [op('offset', st.integers(-4, 4)), op('stack', st.lists(ang, min_size=1, max_size=3)), op('angle', st.tuples(st.integers(0, 3), ang).map(list)),
       op('scalars', ws), op('lists', wl), op('thicker', st.integers(0, 3)), op('ortho', st.booleans()), CONFIRM, CONFIRM]
GEO = [op('r', st.sampled_from([None, 0., .8, 2., 7.])), op('mn', st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list)),
       op('ab', st.tuples(num(.5, 2, 1), num(.5, 2, 1)).map(list)), op('points', st.tuples(st.integers(5, 9), st.integers(5, 9)).map(list)), flagsop,
       op('model', st.integers(0, 2))]
STATE = [op('N', N3), op('Ncte', N3), op('part', part), op('part', part), op('whole', st.just(0)),
         op('air', st.tuples(num(1.2, 3, 1), num(.5, 2, 1), num(100, 900, 0), opt(num(.5, 5, 1)), opt(num(.1, 2, 1)), st.sampled_from('xy')).map(list)),
         op('load', LOAD), op('load', LOAD), op('unload', st.just(0))]
CALC = st.fixed_dictionaries(dict(do=st.just('calc'), what=st.sampled_from(CALCS), inc=st.sampled_from([1., 2., -.5])))
SAVE = op('save', st.booleans())


def history(changes, calc, lo, hi):
    """Changes and calculations in turn"""
    step = st.tuples(st.lists(st.one_of(*changes), min_size=1, max_size=3), st.lists(calc, min_size=1, max_size=2))
    return st.tuples(calc, st.lists(step, min_size=lo, max_size=hi)).map(lambda t: [t[0]] + [o for s_ in t[1] for o in s_[0] + s_[1]])


OPS = history([st.one_of(*LAM), st.one_of(*GEO), st.one_of(*STATE), SAVE], CALC, 2, 5)
# without flags short series leave little that loads can act on
BITS = st.one_of(st.integers(0, 2**24 - 1).map(lambda v: [float(v >> i & 1) for i in range(24)]), st.just([1.] * 24))
C0 = st.lists(st.integers(-9, 9), min_size=3, max_size=7).map(lambda v: [float(t) for t in v])
BASE = dict(a=num(.5, 2, 1), b=num(.5, 2, 1), r=st.sampled_from([0., 0., .8, 3.]), mn=st.tuples(st.integers(2, 4), st.integers(2, 4)).map(list),
            stack=st.lists(ang, min_size=1, max_size=3), flags=BITS, c=C0)


# --------------------------------------------------------------------------
# Assemblies.  Two assemblies may share domains
# --------------------------------------------------------------------------
def mkmd(Ds, Dmd, shells_=None):
    from panels.multidomain import MultiDomain
    ss = shells_ or [fresh(D) for D in Ds]
    md = MultiDomain([ss[i] for i in Dmd['order']], [mkconn(ss, l, Dmd) for l in Dmd['links']])
    md.out_num_cores = 1
    return md, ss


def mkconn(ss, l, Dmd):
    order = Dmd['order']
    i, j = order[l['i'] % len(order)], order[l['j'] % len(order)]
    if i == j:
        j = order[(order.index(i) + 1) % len(order)]
    d = dict(p1=ss[i], p2=ss[j], func=l['func'])
    if l['func'].endswith('cte'):
        L = 'b' if l['func'].endswith('ycte') else 'a'
        k = l['func'][-4:]
        d[k + '1'], d[k + '2'] = l['s'][0] * getattr(ss[i], L), l['s'][1] * getattr(ss[j], L)
    if l['func'] == 'SB_TSL':
        d['tsl_type'] = 'linear'
    return d


MDCALC = ('kC', 'kC(c)', 'kG', 'kG(c)', 'kM', 'kT', 'fint', 'fext', 'conn', 'conn', 'uvw', 'strain', 'stress', 'uvw_gp', 'stress_gp', 'size', 'plot')


def mdcalc(md, what, cv, inc):
    size = sum(3 * p.m * p.n for p in md.panels)
    c = expand(cv, size, .01)
    keep = c.copy()
    kw = dict(silent=True)
    if what in ('kC', 'kG', 'kM'):
        out = {what: getattr(md, 'calc_' + what)(**kw)}
    elif what in ('kC(c)', 'kG(c)'):
        out = {what: getattr(md, 'calc_' + what[:2])(c=c, **kw)}
    elif what == 'kT':
        out = dict(kT=md.calc_kT(c=c, **kw))
    elif what == 'fint':
        out = dict(fint=md.calc_fint(c, **kw))
    elif what == 'fext':
        out = dict(fext=md.calc_fext(inc=inc, **kw))
    elif what == 'conn':
        out = dict(conn=md.get_kC_conn())
    elif what == 'size':
        out = dict(size=np.array([md.get_size()]))
    elif what == 'plot':
        _, d = md.plot(c, 'g', vec='Nxx', gridx=3, gridy=3, calc_data_only=True)
        out = dict(plot=np.array([d['vecmin'], d['vecmax']]))
    else:
        nm = what.split('_')[0]
        if what.endswith('_gp'):
            r = getattr(md, nm + '_gauss_points')(c, 'g', x_gauss=np.array([.2, .5]), y_gauss=np.array([.1, .3, .5]))
        else:
            r = getattr(md, nm)(c, 'g', gridx=3, gridy=4)
        out = {'%s %d' % (k, i): a for k, v in r.items() for i, a in enumerate(v)}
    if not np.array_equal(c, keep):
        fail('%s changed the vector it was given' % what)
    return out


def assembly(case):
    Ds = []
    for p in case['panels']:
        D = start(dict(p, a=case['a'], b=case['b']))
        D['parts'] = False
        Ds.append(D)
    n = len(Ds)
    ss = [fresh(D) for D in Ds]
    Dm = []
    for k in range(2):
        o = [(i + case['roll'][k]) % n for i in range(n)]
        if k and case['fewer'] and n > 2:
            o = o[:-1]
        Dm.append(dict(order=o, links=list(case['links'])))
    mds = [mkmd(Ds, d, ss)[0] for d in Dm]
    kept, did, changed, again = Kept(), False, False, False
    for op in case['ops']:
        k = op.get('md', 0)
        if op['do'] == 'calc':
            if not all('parts' in D and not D['parts'] for D in Ds):
                raise AssertionError
            for D in Ds:
                D['nx'], D['ny'] = max(D['nx'], D['m']), max(D['ny'], D['n'])
            md2, _ = mkmd(Ds, Dm[k])
            exp = mdcalc(md2, op['what'], case['c'], op['inc'])
            got = mdcalc(mds[k], op['what'], case['c'], op['inc'])
            same(got, exp, 'assembly: ' + op['what'])
            kept.add(got, op['what'])
            again |= changed and did
            did, changed = True, False
        elif op['do'] == 'link':
            Dm[k]['links'] = Dm[k]['links'] + [op['v']]
            mds[k].conn.append(mkconn(ss, op['v'], Dm[k]))
            changed = True
        elif op['do'] == 'unlink':
            if len(Dm[k]['links']) > 1:
                Dm[k]['links'] = Dm[k]['links'][:-1]
                mds[k].conn.pop()
                changed = True
        elif op['do'] == 'slide':
            l = dict(Dm[k]['links'][0], s=op['v'])
            Dm[k]['links'] = [l] + Dm[k]['links'][1:]
            if l['func'].endswith('cte'):
                mds[k].conn[0].update(mkconn(ss, l, Dm[k]))      # in place
            changed = True
        elif op['do'] == 'relink':
            Dm[k]['links'] = op['v']
            mds[k].conn = [mkconn(ss, l, Dm[k]) for l in op['v']]
            changed = True
        elif op['do'] == 'alone':      # a domain used on its own
            i = op['i'] % n
            calc(ss[i], op['what'], case['c'], 1.)
        else:
            i = op['i'] % n
            change(Ds[i], ss[i], op)
            changed = True
    kept.check()
    return again, sorted({o['do'] for o in case['ops']} - {'calc'})[:6]


def of(name, v):
    return st.tuples(st.integers(0, 3), v).map(lambda t: dict(do=name, v=t[1], i=t[0]))


def onmd(name, v):
    return st.tuples(st.integers(0, 1), v).map(lambda t: dict(do=name, v=t[1], md=t[0]))


LINK = st.fixed_dictionaries(dict(i=st.integers(0, 3), j=st.integers(0, 3), func=st.sampled_from(['SSycte', 'SSxcte', 'BFycte', 'BFxcte', 'SB', 'SB_TSL']),
                                  s=st.tuples(pos, pos).map(list)))
PANELOPS = [of('r', st.sampled_from([None, 0., .8, 7.])), of('mn', st.tuples(st.integers(2, 4), st.integers(2, 4)).map(list)),
            of('flags', st.lists(st.tuples(st.integers(0, 23), st.sampled_from([0., 1.])).map(list), min_size=1, max_size=5)),
            of('stack', st.lists(ang, min_size=1, max_size=3)), of('angle', st.tuples(st.integers(0, 3), ang).map(list)), of('scalars', ws), of('lists', wl),
            of('thicker', st.integers(0, 3)), of('confirm', st.tuples(st.integers(0, 3), st.sampled_from([None, .8, 2., 7.]), st.integers(0, 2)).map(list)), of('N', N3), of('load', LOAD), of('offset', st.integers(-4, 4))]
MDOPS = [onmd('link', LINK), onmd('unlink', st.just(0)), onmd('slide', st.tuples(pos, pos).map(list)), onmd('relink', st.lists(LINK, min_size=1, max_size=3))]
ALONE = st.fixed_dictionaries(dict(do=st.just('alone'), i=st.integers(0, 3), what=st.sampled_from(['kC', 'kM', 'fint', 'fext', 'stress'])))
MCALC = st.fixed_dictionaries(dict(do=st.just('calc'), what=st.sampled_from(MDCALC), inc=st.sampled_from([1., 2.]), md=st.sampled_from([0, 0, 1])))
MOPS = history([st.one_of(*PANELOPS), st.one_of(*PANELOPS), st.one_of(*MDOPS), ALONE], MCALC, 1, 4)
ASM = st.fixed_dictionaries(dict(a=num(.5, 2, 1), b=num(.5, 2, 1), panels=st.lists(st.fixed_dictionaries(
    {k: v for k, v in BASE.items() if k not in 'abc'}), min_size=2, max_size=3), links=st.lists(LINK, min_size=1, max_size=2), c=C0,
    roll=st.tuples(st.integers(0, 2), st.integers(0, 2)).map(list), fewer=st.booleans(), ops=MOPS))


# --------------------------------------------------------------------------
# Stiffened panels: a new object that only saw the changes is the reference
# --------------------------------------------------------------------------
BAYCALC = ('kC', 'kG', 'kM', 'kA', 'cA', 'fext', 'skin', 'flange', 'size')


def baycalc(bay, what, cv):
    if what in ('kC', 'kG', 'kM', 'kA', 'cA'):
        return {what: getattr(bay, 'calc_' + what)(silent=True)}
    if what == 'fext':
        return dict(fext=bay.calc_fext(silent=True))
    if what == 'size':
        return dict(size=np.array([bay.get_size()]))
    c = expand(cv, bay.get_size(), .01)
    xs, ys = np.array([.1, .5, .9]) * bay.a, np.array([.2, .7, .4])
    if what == 'skin':
        r = bay.uvw_skin(c, xs=xs, ys=ys * bay.b)
        return {k: v for k, v in zip(FIELDS, r)}
    out = {}
    for i, s in enumerate(bay.stiffeners):
        if getattr(s, 'flange', None) is not None:
            r = bay.uvw_stiffener(c, i, 'flange', xs=xs, ys=ys * s.flange.b)
            out.update({'%s %d' % (k, i): v for k, v in zip(FIELDS, r)})
    return out


def baychange(bay, op):
    k, v = op['do'], op['v']
    if k == 'skinforce':
        bay.forces_skin.append([v[0] * bay.a, v[1] * bay.b] + v[2])
    elif k == 'N':
        p = bay.panels[v[0] % len(bay.panels)]
        p.Nxx, p.Nyy, p.Nxy = v[1]
    elif k == 'thick':
        p = bay.panels[v[0] % len(bay.panels)]
        if p.plyt is not None:
            p.plyts, p.plyt = None, p.plyt * v[1]
        else:
            p.plyts = [t * v[1] for t in p.plyts]
    elif k == 'ply':
        p = bay.panels[v[0] % len(bay.panels)]
        p.stack = [t + v[1] * 10 for t in p.stack]
    elif k == 'air':
        bay.beta, bay.gamma, bay.aeromu, bay.flow = v
    elif k == 'mach':
        bay.beta = bay.gamma = None
        bay.Mach, bay.rho_air, bay.V, bay.speed_sound = v
    elif bay.stiffeners:
        s = bay.stiffeners[v[0] % len(bay.stiffeners)]
        if k == 'Fx':
            if hasattr(s, 'flange'):
                if s.flange is not None:
                    s.flange.Nxx = v[1]
            else:
                s.Fx = v[1]
        elif k == 'flangeforce' and getattr(s, 'flange', None) is not None:
            s.forces_flange.append([.3 * bay.a, .4 * s.flange.b, v[1], 2., 3.])
        elif k == 'baseply' and s.bstack is not None:
            s.bplyts[0] = s.bplyts[0] * v[1]       # in place


def bay(case):
    from checks.c19 import mk
    from panels.stiffpanelbay import stiffpanelbay as module

    def new():
        b = mk(case)[0]
        b.beta, b.gamma, b.aeromu = 1.5, .3, .7
        return b
    obj, done, kept = new(), [], Kept()
    did = changed = again = False
    for op in case['ops']:
        if op['do'] == 'calc':
            r = new()
            for o in done:
                baychange(r, o)
            same(baycalc(obj, op['what'], case['c']), baycalc(r, op['what'], case['c']), 'stiffened panel: ' + op['what'])
            again |= changed and did
            did, changed = True, False
        elif op['do'] == 'save':
            t = saveload(obj, module)
            if op['v']:
                obj, t = t, obj
            r = new()
            for o in done:
                baychange(r, o)
            for what in ('kC', 'kM', 'fext'):
                same(baycalc(t, what, case['c']), baycalc(r, what, case['c']), 'stiffened panel, the other one after saving: ' + what)
            same(baycalc(obj, 'fext', case['c']), baycalc(r, 'fext', case['c']), 'stiffened panel after saving: fext')
            changed = True
        else:
            baychange(obj, op)
            done.append(op)
            changed = True
    return again, sorted({o['do'] for o in case['ops']} - {'calc'})[:6]


def baystrategy():
    from checks.c19 import BAY
    k = st.integers(0, 3)
    ch = [op('skinforce', st.tuples(pos, pos, f3).map(list)), op('N', st.tuples(k, N3).map(list)), op('thick', st.tuples(k, num(.5, 2, 1)).map(list)),
          op('ply', st.tuples(k, st.integers(-4, 4)).map(list)), op('air', st.tuples(num(.5, 3, 1), opt(num(.1, 2, 1)), opt(num(.1, 2, 1)), st.sampled_from('xy')).map(list)),
          op('mach', st.tuples(num(1.2, 3, 1), num(.5, 2, 1), num(100, 900, 0), num(200, 400, 0)).map(list)), op('Fx', st.tuples(k, num(-9, 9, 1)).map(list)),
          op('flangeforce', st.tuples(k, num(-9, 9, 1)).map(list)), op('baseply', st.tuples(k, num(.5, 2, 1)).map(list)), SAVE]
    calc = st.sampled_from(BAYCALC).map(lambda w: dict(do='calc', what=w))
    return st.tuples(BAY, C0, history(ch, calc, 1, 4)).map(lambda t: dict(t[0], c=t[1], ops=t[2]))


RELATIONS = [
    Relation('shell', st.fixed_dictionaries(dict(BASE, ops=OPS)), shell, 350, 8000, 8),
    Relation('saved', st.fixed_dictionaries(dict(BASE, flags=st.just([1.] * 24), before=st.sampled_from([None, 'kC', 'fext', 'stress']),
                                                 ops=st.lists(st.one_of(op('load', LOAD), op('load', LOAD), op('N', N3), op('stack', st.lists(ang, min_size=1, max_size=3))),
                                                              min_size=4, max_size=7))), saved, 120, 2000, 4),
    Relation('assembly', ASM, assembly, 150, 4000, 8),
    Relation('bay', baystrategy(), bay, 100, 3000, 8),
]
