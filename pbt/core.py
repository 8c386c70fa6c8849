"""Shared pieces of the generated-input checks.

A check module (checks/cNN.py) lists Relations.  A relation is a Hypothesis
strategy that produces a JSON-able case, and a function that evaluates the real
code on that case against an oracle.  It raises Violation when the property is
broken, and otherwise returns True / False (non-trivial by the module's RULE)
or (flag, [labels]).
"""
import json
import os

import numpy as np


class Violation(Exception):
    """The property does not hold on the case being evaluated"""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test"""


class Relation:
    """quick / thorough: number of generated cases.  shards: processes the
    thorough tier spreads the cases over (each has its own derived seed)."""

    def __init__(self, name, strategy, check, quick=200, thorough=None, shards=1, enum=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.enum = enum      # optional: callable giving a fixed list of cases, all evaluated first


class Probe:
    """The specific input of one recorded finding: run() returns a description
    of the failure while the defect is there, and None once it is gone."""

    def __init__(self, key, run):
        self.key, self.run = key, run


HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
_known = None


def known_findings():
    global _known
    if _known is None:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            _known = json.load(f)
    return _known


def is_known(prop, key):
    """True if the finding is recorded as open (a 'fixed' entry suppresses nothing)"""
    return any(e['property'] == prop and e['key'] == key and e['status'] == 'known'
               for e in known_findings()['findings'])


def fail(msg):
    raise Violation(msg)


def _dense(A):
    return A.toarray() if hasattr(A, 'toarray') else np.asarray(A)


def err(A, B, scale=None):
    A, B = _dense(A), _dense(B)
    if A.shape != B.shape:
        raise Violation('shape %s, expected %s' % (A.shape, B.shape))
    if A.size == 0:
        return 0.
    if not (np.isfinite(A).all() and np.isfinite(B).all()):
        return float('inf')
    s = max(np.abs(A).max(), np.abs(B).max()) if scale is None else scale
    d = np.abs(A - B).max()
    return float(d / s) if s > 0 else float(d)


SLACK = 1.          # more for long series: see checks/common.py


def eased(tol):
    return max(tol, min(tol * SLACK, 1e-3))


def close(A, B, tol, what, scale=None, info=''):
    """Fails unless max|A-B| <= tol * (largest magnitude, or scale)"""
    tol = eased(tol)
    e = err(A, B, scale)
    if not e <= tol:
        A, B = _dense(A), _dense(B)
        k = np.unravel_index(np.nanargmax(np.abs(A - B)), A.shape) if A.shape else ()
        raise Violation('%s: relative difference %.3g (tolerance %.1g); at %s got %r, expected %r %s'
                        % (what, e, tol, tuple(int(i) for i in k), A[k].item(), B[k].item(), info))


def blockclose(A, B, tol, what, info='', floor=0.):
    """close() for a matrix over (u, v, w) dofs: each of the nine 3x3-strided
    sub-blocks has its own scale, sqrt(scale_ii * scale_jj), so that an error in a
    physically small block (bending) is not hidden by a large one (membrane).  floor:
    the size below which a block is rounding noise of its own (divided by tol)."""
    tol = eased(tol)
    A, B = _dense(A), _dense(B)
    if A.shape != B.shape:
        raise Violation('%s: shape %s, expected %s' % (what, A.shape, B.shape))
    if not np.isfinite(A).all():
        raise Violation('%s: not finite' % what)
    d = np.array([np.abs(B[i::3, i::3]).max(initial=0.) for i in range(3)])
    for i in range(3):
        for j in range(3):
            a, b = A[i::3, j::3], B[i::3, j::3]
            s = max(np.abs(b).max(initial=0.), np.sqrt(d[i] * d[j]), floor)
            e = np.abs(a - b).max(initial=0.)
            if e > tol * s if s > 0 else e > 0:
                k = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
                raise Violation('%s: block %s%s differs by %.3g relative (tolerance %.1g); at row %d col %d got %r, expected %r %s'
                                % (what, 'uvw'[i], 'uvw'[j], e / s if s else e, tol, 3 * k[0] + i, 3 * k[1] + j,
                                   a[k].item(), b[k].item(), info))


def expect_raises(fn, types, what):
    try:
        fn()
    except types:
        return
    except Exception as e:
        raise Violation('%s: raised %s(%s), expected %s' % (what, type(e).__name__, e, types))
    raise Violation('%s: accepted' % what)
