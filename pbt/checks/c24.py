"""C24: contour plots"""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c19 import BAY, flanged, mk
from checks.common import close, expand, fail, mkdomain, mkshell, num, shells, vec, with_
from core import Relation, expect_raises

RULE = 'the plotted field is not constant, so that a contour is drawn'
ASSUMPTIONS = ['a constant field has no contour levels: matplotlib refuses it, such cases are counted as trivial',
               'the calls to Axes.contourf are recorded; the plotted data are those that matplotlib is given']

DISP = ('u', 'v', 'w', 'phix', 'phiy')
STRAIN = ('exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy')
STRESS = ('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy')


class Drawing:
    """Records what is drawn; everything that is written stays in a scratch directory"""

    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.axes
        import matplotlib.pyplot as plt
        self.plt, self.cls, self.calls = plt, matplotlib.axes.Axes, []
        self.maps = []
        self.orig = self.cls.contourf
        rec = self

        def contourf(ax, *args, **kw):
            lev = kw['levels'] if 'levels' in kw else args[3]
            rec.calls.append([ax] + [np.array(v, dtype=float) for v in args[:3]] + [np.array(lev, dtype=float)])
            rec.maps.append(getattr(kw.get('cmap'), 'name', None))
            return rec.orig(ax, *args, **kw)

        self.cls.contourf = contourf
        self.cwd, self.tmp = os.getcwd(), tempfile.mkdtemp(prefix='c24-')
        os.chdir(self.tmp)
        return self

    def __exit__(self, *a):
        self.cls.contourf = self.orig
        self.plt.close('all')
        os.chdir(self.cwd)
        shutil.rmtree(self.tmp)

    def files(self):
        return sorted(os.path.join(os.path.relpath(d, self.tmp), f) for d, _, fs in os.walk(self.tmp) for f in fs)


def axes(D, case):
    """(ax argument, file name argument, save, files that must be there afterwards)"""
    how = case['how']
    if how == 'ax':
        return dict(ax=D.plt.figure(figsize=(2, 1.5)).add_subplot(111), save=True, filename='never.png'), []
    if how == 'file':
        return dict(save=True, filename=os.path.join(D.tmp, 'named.png'), dpi=20), ['./named.png']
    if how == 'default':
        return dict(dpi=20), None         # by default the figure is written
    return dict(save=False), []


def options(case):
    kw = dict(num_levels=case['levels'], figsize=(2., 1.5))
    o = case['opt']
    if o['bar']:
        kw.update(colorbar=True, cbar_nticks=o['ticks'], cbar_title='bar' if o['title'] else '')
    if o['title']:
        kw['title'] = 'a title'
    if o['clean'] is not None:
        kw['clean'] = o['clean']
    if o['invert']:
        kw['invert_y'] = True
    if o['text']:
        kw['texts'] = [dict(x=.5, y=.5, s='note')]
    if o['aspect'] is not None:
        kw['aspect'] = o['aspect']
    if o['map'] is not None and 'skin' not in case:
        kw['colormap'] = o['map']
    if o['min'] is not None:
        kw['vecmin'] = o['min']
    if o['max'] is not None:
        kw['vecmax'] = o['max']
    return kw


def rounding(nm, f, c, a, b):
    """A displacement field that is zero but for rounding"""
    return nm in DISP and np.abs(f).max() < 1e-6 * np.abs(c).max() / max(1, a, b)


def scale_ok(kw, fields):
    """Limits of the contour; None when no contour can be drawn (as for a constant field)"""
    lo = kw['vecmin'] if 'vecmin' in kw else min(f.min() for f in fields)
    hi = kw['vecmax'] if 'vecmax' in kw else max(f.max() for f in fields)
    big = max(abs(lo), abs(hi), max(np.abs(f).max() for f in fields))
    return (lo, hi) if hi - lo > 1e-6 * big and big > 1e-250 else None


def compare(D, case, kw, ret, parts, given, files, n0=0):
    """parts: (x, y, field) of each contour"""
    calls = D.calls[n0:]
    if len(calls) != len(parts):
        fail('%d contours drawn, expected %d' % (len(calls), len(parts)))
    lo, hi = scale_ok(kw, [p[2] for p in parts])
    ax = given.get('ax') or calls[0][0]
    for (a, X, Y, Z, lev), (x, y, f) in zip(calls, parts):
        if a is not ax:
            fail('a contour drawn in another axes')
        size = max(np.abs(x).max(), np.abs(y).max(), np.ptp(x), np.ptp(y), 1e-300)
        for got, e, nm in ((X, y, 'horizontal positions (y)'), (Y, x, 'vertical positions (x)')):
            if got.shape != e.shape:
                fail('%s have shape %r, expected %r' % (nm, got.shape, e.shape))
            close(got, e, 1e-9, nm, scale=size)
        if Z.shape != f.shape:
            fail('field of shape %r, expected %r' % (Z.shape, f.shape))
        close(Z, f, 1e-9, 'plotted field', scale=max(np.abs(p[2]).max() for p in parts))
        e = np.linspace(lo, hi, case['levels'])
        if lev.shape != e.shape:
            fail('%d levels, expected %d' % (lev.size, e.size))
        close(lev, e, 1e-9, 'contour levels')
    if ret is not ax:
        fail('the axes of the contour are not returned')
    o = case['opt']
    if not ax.xaxis_inverted() or ax.yaxis_inverted() != o['invert']:
        fail('direction of the axes')
    if o['title'] and ax.get_title() != 'a title':
        fail('title %r' % ax.get_title())
    if o['text'] and [t.get_text() for t in ax.texts].count('note') != 1:
        fail('texts not drawn')
    if ax.get_aspect() != (dict(auto='auto').get(o['aspect'], o['aspect']) or 1.):
        fail('aspect %r, expected %r' % (ax.get_aspect(), o['aspect'] or 'equal'))
    labels = [t.get_text() for k in (ax.xaxis, ax.yaxis) for t in k.get_ticklabels()]
    if any(labels) != (o['clean'] is False):
        fail('clean=%r with the labels %r at the axes' % (o['clean'], labels))
    for k, on in ((ax.xaxis, 'bottom'), (ax.yaxis, 'left')):
        if k.get_ticks_position() not in ((on, 'default') if o['clean'] is False else ('none', 'unknown')):
            fail('clean=%r with the ticks at %r' % (o['clean'], k.get_ticks_position()))
    if 'skin' not in case:
        want = 'viridis' if kw.get('colormap') == 'viridis' else 'jet'
        if set(D.maps[n0:]) != {want}:
            fail('colour map %r, expected %r' % (D.maps[n0:], want))
    others = [q for q in ax.figure.axes if q is not ax]
    if len(others) != o['bar']:
        fail('%d colour bars, expected %d' % (len(others), o['bar']))
    if o['bar']:
        close(np.sort(others[0].get_yticks()), np.linspace(lo, hi, o['ticks']), 1e-9, 'ticks of the colour bar', scale=max(abs(lo), abs(hi)))
        if o['title'] and 'bar' not in [t.get_text() for t in others[0].texts]:
            fail('title of the colour bar not drawn')
    got = D.files()
    if files is None:
        if len(got) != 1:
            fail('files written for a plot without a file name: %r' % got)
    elif got != files:
        fail('files written: %r, expected %r' % (got, files))


def meshkw(case, a, b):
    """(kwargs, x, y)"""
    gx, gy = case['grid']
    X, Y = np.meshgrid(np.linspace(0, a, gx), np.linspace(0, b, gy))
    if case['points']:
        X, Y = np.meshgrid(np.linspace(.1, .7, gx)**1.5 * a, np.linspace(.2, .95, gy) * b)
        return dict(xs=X, ys=Y), X, Y
    return dict(gridx=gx, gridy=gy), X, Y


def reference(dom, c, X, Y, nm):
    """Displacement field from the series"""
    op = dict(phix=('w', 1, 0), phiy=('w', 0, 1)).get(nm, (nm, 0, 0))
    f = np.array([dom.op(op[0], x, y, *op[1:]) @ c for x, y in zip(X.ravel(), Y.ravel())]).reshape(X.shape)
    return -f if nm[0] == 'p' else f


def shell_fields(s, dom, c, X, Y, nm, NL):
    if nm in DISP:
        return reference(dom, c, X, Y, nm)
    f = s.strain(c, xs=X, ys=Y, NLgeom=NL) if nm in STRAIN else s.stress(c, xs=X, ys=Y, NLgeom=NL)
    return f[1][nm].copy()


def single(case):
    from panels.plot_shell import plot_shell
    s, dom, twin = mkshell(case), mkdomain(case), mkshell(case)
    twin.calc_kC(silent=True)
    if case['used']:
        s.calc_kC(silent=True)
    c = expand(case['c'], s.get_size(), min(s.a, s.b) * case['amp'])
    c0 = c.copy()
    before = {}
    if case['before']:
        before = {k: v.copy() for k, v in s.stress(c * .3, gridx=3, gridy=2)[1].items() if v is not None}
        before.update({k: v.copy() for k, v in s.uvw(c * .3, gridx=3, gridy=2)[1].items() if k in DISP})
    mk_, X, Y = meshkw(case, s.a, s.b)
    nm, NL = case['vec'], case['NL']
    f = shell_fields(twin, dom, c, X, Y, nm, True if NL is None else NL)
    kw = dict(options(case), vec=nm, **mk_)
    if NL is not None:
        kw['NLgeom'] = NL
    if scale_ok(kw, [f]) is None or rounding(nm, f, c, s.a, s.b):
        return False, ['constant']
    ox, oy = case['shift'] if case['move'] else (0., 0.)
    if case['move']:
        kw.update(plot_offset_x=ox, plot_offset_y=oy)
    x, y = X + ox, Y + oy
    if case['deform'] is not None:
        kw.update(deform_u=True, deform_u_sf=case['deform'])
        x, y = x - case['deform'] * reference(dom, c, X, Y, 'u'), y + case['deform'] * reference(dom, c, X, Y, 'v')
    with Drawing() as D:
        given, files = axes(D, case)
        ret = plot_shell(s, c, **dict(kw, **given))
        compare(D, case, kw, ret, [(x, y, f)], given, files)
    if not np.array_equal(c, c0):
        fail('the displacement vector was changed')
    for k, v in before.items():
        g = s.fields[k]
        if g is None or g.shape != v.shape or not np.array_equal(g, v):
            fail('the field %s recovered before the plot was replaced' % k)
    if case['how'] != 'ax':
        with Drawing() as D:
            expect_raises(lambda: plot_shell(s, c, vec='nothing', save=False), ValueError, 'unknown field')
            expect_raises(lambda: plot_shell(s, c, ax='axes', gridx=3, gridy=3, save=False), ValueError, 'axes that are not axes')
    return True, [nm, case['how']] + ['deformed'] * (case['deform'] is not None) + ['before'] * case['before']


def assembly(case):
    from panels.multidomain import MultiDomain
    pan, doms, twins, cs = [], [], [], []
    for k, p in enumerate(case['panels']):
        base = dict(case, **p['own'])
        s = mkshell(base, group=p['group'], x0=p['at'][0], y0=p['at'][1])
        pan.append(s)
        doms.append(mkdomain(base))
        twins.append(mkshell(base))
        cs.append(expand(case['c'][k:] + case['c'][:k], s.get_size(), min(s.a, s.b) * case['amp']))
    md = MultiDomain(pan)
    c = np.concatenate(cs)
    c0 = c.copy()
    group = case['panels'][case['pick'] % len(pan)]['group']
    ids = [k for k, p in enumerate(case['panels']) if p['group'] == group]
    nm = case['vec']
    parts = []
    gx, gy = case['grid']
    kw = dict(options(case), vec=nm)
    kw.pop('invert_y', None)
    if case['opt']['invert']:
        kw['invert_y'] = True
    pts = case['points'] and gx > 1 and gy > 1
    if pts:
        D_ = min(min(s.a, s.b) for s in pan)
        xg, yg = np.linspace(.1, .7, gx)**1.5 * D_, np.linspace(.2, .95, gy) * D_
        kw.update(use_gauss_points=True, x_gauss=xg, y_gauss=yg)
    else:
        kw.update(gridx=gx, gridy=gy)
    for k in ids:
        s = pan[k]
        X, Y = np.meshgrid(xg, yg) if pts else np.meshgrid(np.linspace(0, s.a, gx), np.linspace(0, s.b, gy))
        parts.append((X + s.x0, Y + s.y0, shell_fields(twins[k], doms[k], cs[k], X, Y, nm, True)))
    fields = [p[2] for p in parts]
    lims = scale_ok(kw, fields)
    if all(rounding(nm, f, cs[k], pan[k].a, pan[k].b) for k, f in zip(ids, fields)):
        return False, ['constant']
    with Drawing() as D:
        none, data = md.plot(c, group, calc_data_only=True, **kw)
        lo = kw.get('vecmin', min(f.min() for f in fields))
        hi = kw.get('vecmax', max(f.max() for f in fields))
        big = max(np.abs(f).max() for f in fields)
        if none is not None or D.calls or D.files() or D.plt.get_fignums():
            fail('something drawn when only the data are wanted')
        close(np.array([data['vecmin'], data['vecmax']]), np.array([lo, hi]), 1e-9, 'vecmin and vecmax of the group', scale=max(big, abs(lo), abs(hi)) or 1.)
        if lims is None:
            return False, ['constant']
        given, files = axes(D, case)
        kw.update(identify=case['identify'], show_boundaries=case['bounds'])
        ret, data = md.plot(c, group, **dict(kw, **given))
        compare(D, case, kw, ret, parts, given, files)
        close(np.array([data['vecmin'], data['vecmax']]), np.array(lims), 1e-9, 'vecmin and vecmax of the plot', scale=max(big, *map(abs, lims)))
        names = sorted(t.get_text() for t in ret.texts if t.get_text() != 'note')
        if names != (['P %02d' % (k + 1) for k in ids] if case['identify'] else []):
            fail('panels identified as %r' % names)
        if case['identify']:
            for t in ret.texts:
                if t.get_text() != 'note':
                    x, y, f = parts[ids.index(int(t.get_text()[2:]) - 1)]
                    close(np.array(t.get_position()), np.array([y.mean(), x.mean()]), 1e-9, 'position of the identification', scale=np.abs(x).max() + np.abs(y).max())
        if case['bounds']:
            segs = [[(round(float(q[0]), 9), round(float(q[1]), 9)) for q in zip(l.get_xdata(), l.get_ydata())] for l in ret.lines]
            box = {tuple(sorted(z)) for l in segs for z in zip(l, l[1:])}
            want = set()
            for x, y, f in parts:
                u0, u1, v0, v1 = (round(float(z), 9) for z in (y.min(), y.max(), x.min(), x.max()))
                want |= {((u0, v0), (u0, v1)), ((u1, v0), (u1, v1)), ((u0, v0), (u1, v0)), ((u0, v1), (u1, v1))}
            if box != want:
                fail('boundaries through %r, expected %r' % (sorted(box), sorted(want)))
        elif len(ret.lines):
            fail('boundaries drawn')
        if case['how'] != 'ax':
            expect_raises(lambda: md.plot(c, group, vec='nothing', save=False), ValueError, 'unknown field')
    if not np.array_equal(c, c0):
        fail('the displacement vector was changed')
    return True, [nm, case['how'], 'panels%d of %d' % (len(ids), len(pan))] + ['given points'] * bool(pts)


def bay(case):
    b, dom, panels, stiffs, flanges, off = mk(case)
    b.calc_kC(silent=True)
    c = expand(case['c'], off[-1], min(case['a'], case['b']) * case['amp'])
    c0 = c.copy()
    nm = case['vec']
    parts = [(None, dom, 0)] + [(s, s['dom'], off[i + 1]) for i, s in enumerate(flanges)]
    s, d, o = parts[case['pick'] % len(parts)]
    before = None
    if case['before']:
        before = [v.copy() for v in b.uvw_skin(c * .3, gridx=3, gridy=2)]
    mk_, X, Y = meshkw(case, d.a, d.b)
    cc = c[o:o + d.size]
    f = reference(d, cc, X, Y, nm)
    kw = dict(options(case), vec=nm, silent=True, **mk_)
    if scale_ok(kw, [f]) is None or rounding(nm, f, cc, d.a, d.b):
        return False, ['constant']
    x, y = X, Y
    if case['deform'] is not None:
        kw.update(deform_u=True, deform_u_sf=case['deform'])
        x, y = x - case['deform'] * reference(d, cc, X, Y, 'u'), y + case['deform'] * reference(d, cc, X, Y, 'v')
    run = b.plot_skin if s is None else (lambda c, **k: b.plot_stiffener(c, b.stiffeners.index(s['obj']), **k))
    X0, Y0 = X.copy(), Y.copy()
    with Drawing() as D:
        given, files = axes(D, case)
        ret = run(c, **dict(kw, **given))
        compare(D, case, kw, ret, [(x, y, f)], given, files)
        if case['how'] != 'ax':
            expect_raises(lambda: run(c, vec='nothing', save=False, silent=True), ValueError, 'unknown field')
    close(b.Xs, X0, 1e-12, 'mesh of the bay (x)', scale=d.a)
    close(b.Ys, Y0, 1e-12, 'mesh of the bay (y)', scale=d.b)
    if not np.array_equal(c, c0):
        fail('the displacement vector was changed')
    if before is not None:
        for k, v in zip(DISP, before):
            if getattr(b, k).shape != v.shape or not np.array_equal(getattr(b, k), v):
                fail('the field %s recovered before the plot was replaced' % k)
    return True, ['skin' if s is None else 'flange', case['how'], nm] + ['deformed'] * (case['deform'] is not None)


OPT = st.fixed_dictionaries(dict(bar=st.booleans(), ticks=st.integers(2, 4), title=st.booleans(), clean=st.one_of(st.none(), st.booleans()),
                                 invert=st.booleans(), text=st.booleans(), aspect=st.sampled_from([None, 'auto', 2.]),
                                 map=st.sampled_from([None, 'viridis', 'nothing']), min=st.one_of(st.none(), st.none(), st.just(0.), num(-9, -1, 1)),
                                 max=st.one_of(st.none(), st.none(), st.just(0.), num(1, 9, 1))))
DRAW = dict(c=vec(0), amp=st.sampled_from([.2, .02]), grid=st.tuples(st.integers(2, 6), st.integers(2, 6)).map(list), points=st.booleans(),
            levels=st.integers(3, 9), opt=OPT, how=st.sampled_from(['none', 'ax', 'ax', 'file', 'default']))
SINGLE = dict(DRAW, vec=st.sampled_from(DISP + STRAIN + STRESS), NL=st.one_of(st.none(), st.booleans()), deform=st.one_of(st.none(), num(-3, 3, 1)),
              move=st.booleans(), shift=st.tuples(num(-5, 5, 1), num(-5, 5, 1)).map(list), used=st.booleans(), before=st.booleans())
OWN = st.fixed_dictionaries(dict(a=num(.3, 2, 2), b=num(.3, 2, 2), mn=st.tuples(st.integers(2, 4), st.integers(2, 4)).map(list)))
PAN = st.fixed_dictionaries(dict(own=OWN, group=st.sampled_from(['A', 'B', 'A B']), at=st.tuples(num(-2, 2, 1), num(-2, 2, 1)).map(list)))
ASSY = dict(DRAW, vec=st.sampled_from(DISP + STRAIN + STRESS), panels=st.lists(PAN, min_size=1, max_size=4), pick=st.integers(0, 3), identify=st.booleans(),
            bounds=st.booleans())
PLOTBAY = dict(DRAW, vec=st.sampled_from(DISP), deform=st.one_of(st.none(), num(-3, 3, 1)), pick=st.integers(0, 3), keep=st.integers(0, 5), before=st.booleans())
# a clamped edge more would only produce constant fields
SH = shells(hi=4, frac=False).map(lambda d: dict(d, flags=[1.] * 24 if sum(d['flags']) < 12 else d['flags']))

RELATIONS = [
    Relation('single', with_(SH, **SINGLE), single, 250, 3000, 8),
    Relation('assembly', with_(SH, **ASSY), assembly, 200, 2500, 8),
    Relation('bay', with_(BAY, **PLOTBAY).map(flanged), bay, 200, 2500, 8),
]
