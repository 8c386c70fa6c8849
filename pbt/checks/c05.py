"""C05: geometric stiffness matrix"""
import numpy as np
from hypothesis import strategies as st

from checks.common import (large, blockclose, close, dense, embed_ok, grown, expand, fail, field, mkabd, mkdomain, mkshell, num,
                           shells, symcheck, vec, wave, with_)
from core import Relation, Violation

RULE = 'the reference matrix is not zero'
ASSUMPTIONS = ['the membrane forces of a displacement state follow the linear or the von Karman strains; recorded finding: '
               'the non-linear shear strain is doubled, and that form is accepted as well (C07 reports it)']

NN = st.lists(st.one_of(st.just(0.), num(-9e4, 9e4, 1)), min_size=3, max_size=3)


def label(case):
    return [case['model'][:5]] + ['N%d' % i for i, v in enumerate(case.get('N', [])) if v]


def amp(case):
    """Displacements for which the linear and the quadratic strains are of comparable size"""
    return min(case['a'], case['b']) * case['amp']


def compare(K, make, what, NL, tol=1e-8):
    try:
        blockclose(K, make(1.), tol, what)
    except Violation:
        if not NL:
            raise
        try:
            blockclose(K, make(2.), tol, what)
        except Violation:
            pass
        else:
            return
        raise


def uniform(case):
    N = case['N']
    s = mkshell(case, Nxx=N[0], Nyy=N[1], Nxy=N[2])
    K = s.calc_kG()
    K0 = mkdomain(case).kG(N)
    symcheck(K, 'kG')
    floor = mkdomain(case).kG([max(map(abs, N))] * 2 + [0.]).max() * 1e-4
    blockclose(K, K0, 1e-9, 'kG', floor=floor)
    d = dense(K)
    if np.abs(d[0::3]).max(initial=0) > 0 or np.abs(d[1::3]).max(initial=0) > 0:
        fail('kG acts on in-plane displacements')
    n = d.shape[0]
    size = n + case['before'] + 5
    embed_ok(s.calc_kG(size=grown(size, n), row0=case['before'], col0=case['before']), case['before'], case['before'], d, size, 'kG')
    # the same stress state through the integrated form
    z = np.zeros(s.get_size())
    blockclose(s.calc_kG(c=z), K0, 1e-8, 'integrated kG of a uniform state', floor=floor)
    blockclose(s.calc_kG(NLgeom=True), K0, 1e-8, 'integrated kG of a uniform state (non-linear)', floor=floor)
    return bool(np.abs(K0).max() > 0), label(case)


def state(case):
    """kG of the membrane forces produced by a displacement field, plus the uniform ones"""
    N, NL = case['N'], case['NL']
    s = mkshell(case, Nxx=N[0], Nyy=N[1], Nxy=N[2])
    size = s.m * s.n * 3
    c = expand(case['c'], size, amp(case))
    nx, ny = case['pts']
    kw, fld = {}, None
    if case['var']:
        fld = field(case, nx, ny)
        kw['ABDnxny'] = fld
    K = s.calc_kG(c=c, NLgeom=NL, nx=nx, ny=ny, **kw)
    symcheck(K, 'kG of a displacement state')
    F = mkabd(case)
    compare(K, lambda sf: mkdomain(case, sf).kG(N, F, c, NL, nx, ny, field=fld), 'kG of a displacement state', NL)
    off = case['before']
    big = np.full(size + off + 2, 3.3)
    big[off:off + size] = c
    embed_ok(s.calc_kG(size=grown(big.size, size), row0=off, col0=off, c=big, NLgeom=NL, nx=nx, ny=ny, **kw), off, off, dense(K),
             big.size, 'kG of a displacement state')
    return True, label(case) + ['NL' if NL else 'linear']


def linearity(case):
    """kG is linear in the membrane forces"""
    N, M, t = case['N'], case['M'], case['t']
    A = dense(mkshell(case, Nxx=N[0], Nyy=N[1], Nxy=N[2]).calc_kG())
    B = dense(mkshell(case, Nxx=M[0], Nyy=M[1], Nxy=M[2]).calc_kG())
    P = [x + t * y for x, y in zip(N, M)]
    C = dense(mkshell(case, Nxx=P[0], Nyy=P[1], Nxy=P[2]).calc_kG())
    close(C, A + t * B, 1e-11, 'kG of a combined state', scale=np.abs(A).max() + abs(t) * np.abs(B).max() or 1.)
    return bool(np.abs(A).max() > 0 and np.abs(B).max() > 0), label(case)


def constant(case):
    """The constant stress state (not multiplied by the load factor) is added to kC"""
    N = case['N']
    s = mkshell(case, Nxx_cte=N[0], Nyy_cte=N[1], Nxy_cte=N[2])
    s0 = mkshell(case)
    dom, F = mkdomain(case), mkabd(case)
    K0 = dense(s0.calc_kC())
    G0 = dom.kG(N)
    blockclose(s.calc_kC(), K0 + G0, 1e-8, 'kC with a constant stress state')
    size = s.get_size()
    c = expand(case['c'], size, amp(case))
    NL = case['NL']
    K = s.calc_kC(c_cte=c, NLgeom=NL)
    nx, ny = s.nx, s.ny
    compare(K, lambda sf: K0 + mkdomain(case, sf).kG(N, F, c, NL, nx, ny), 'kC with a constant displacement state', NL)
    # with a state, non-linear strains or a variable laminate of its own
    c2 = expand(case['c'][::-1], size, amp(case)) if case['state'] else None
    kw = dict(NLgeom=NL)
    fld = None
    if case['var']:
        fld = field(case, nx, ny)
        kw['ABDnxny'] = fld
    z = np.zeros(size) if c2 is None else c2
    K = s.calc_kC(c=c2, c_cte=c if case['both'] else None, **kw)
    compare(K, lambda sf: mkdomain(case, sf).kC(F, z, NL, nx, ny, field=fld) + mkdomain(case, sf).kG(N, F, c if case['both'] else np.zeros(size), NL, nx, ny, field=fld),
            'kC of a state with a constant stress state', NL)
    K = s0.calc_kC(c=c2, **kw)
    compare(K, lambda sf: mkdomain(case, sf).kC(F, z, NL, nx, ny, field=fld), 'kC of a state', NL)
    return bool(np.abs(G0).max() > 0), label(case)


S4 = shells(hi=4)
ALSO = [('c12', 'linear', 60, 1000), ('c19', 'matrices', 60, 1000), ('c19', 'state', 50, 800)]
RELATIONS = [
    Relation('uniform', with_(shells(long=10), N=NN, before=st.integers(0, 3).map(lambda k: 3 * k)), uniform, 250, 4000, 8),
    Relation('state', with_(S4, N=NN, c=vec(0), NL=st.booleans(), var=st.booleans(), wave=wave, amp=st.sampled_from([.1, 1.]),
                            pts=st.tuples(st.integers(3, 8), st.integers(3, 8)).map(list),
                            before=st.integers(0, 2).map(lambda k: 3 * k)), state, 200, 3000, 8),
    Relation('linearity', with_(S4, N=NN, M=NN, t=num(-3, 3, 2)), linearity, 150, 2000, 4),
    Relation('constant', with_(S4, N=NN, c=vec(0), NL=st.booleans(), state=st.booleans(), var=st.booleans(), both=st.booleans(), wave=wave, amp=st.sampled_from([.1, 1.])), constant, 150, 2000, 8),
    large('uniform', with_(shells(), N=NN, before=st.integers(0, 3).map(lambda k: 3 * k)), uniform),
    large('state', with_(S4, N=NN, c=vec(0), NL=st.booleans(), var=st.booleans(), wave=wave, amp=st.sampled_from([.1, 1.]),
                         pts=st.tuples(st.integers(3, 8), st.integers(3, 8)).map(list), before=st.just(0)), state),
]
