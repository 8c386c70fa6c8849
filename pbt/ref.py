"""Reference models, written from the theory and independent of /repo's code.

Bardell functions are built from the Legendre recurrence (twice integrated),
laminate constants from classical lamination theory, integrals from
numpy's own Gauss-Legendre rule with enough points to be exact for the
polynomials involved.  Nothing here imports panels or composites.
"""
from fractions import Fraction as Fr
from functools import lru_cache
import math

import numpy as np

NMAX = 30


# --------------------------------------------------------------------------
# Bardell functions
# --------------------------------------------------------------------------
@lru_cache(None)
def legendre(n):
    """Coefficients (ascending) of the Legendre polynomial P_n, exact"""
    if n == 0:
        return (Fr(1),)
    if n == 1:
        return (Fr(0), Fr(1))
    a, b = legendre(n - 1), legendre(n - 2)
    out = [Fr(0)] * (n + 1)
    for k, c in enumerate(a):
        out[k + 1] += Fr(2 * n - 1, n) * c
    for k, c in enumerate(b):
        out[k] -= Fr(n - 1, n) * c
    return tuple(out)


def _int(p):
    return tuple([Fr(0)] + [c / (k + 1) for k, c in enumerate(p)])


def pder(p, d=1):
    for _ in range(d):
        p = tuple(c * k for k, c in enumerate(p))[1:] or (Fr(0),)
    return p


def pval(p, x):
    s = Fr(0) if isinstance(x, Fr) else 0.
    for c in reversed(p):
        s = s * x + (c if isinstance(x, Fr) else float(c))
    return s


def pmul(p, q):
    out = [Fr(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q):
                out[i + j] += a * b
    return tuple(out)


def pint(p):
    """Integral over [-1, 1]"""
    return sum((2 * c / (k + 1) for k, c in enumerate(p) if k % 2 == 0), Fr(0))


@lru_cache(None)
def bardell(i):
    """Exact coefficients of the i-th (0-based) Bardell function, flags = 1

    0..3: cubic Hermite functions (value at -1, half slope at -1, value at +1,
    half slope at +1).  i >= 4: P_{i-2} integrated twice from -1, which makes
    value and slope vanish at both ends.
    """
    h = {0: (Fr(1, 2), Fr(-3, 4), Fr(0), Fr(1, 4)),
         1: (Fr(1, 8), Fr(-1, 8), Fr(-1, 8), Fr(1, 8)),
         2: (Fr(1, 2), Fr(3, 4), Fr(0), Fr(-1, 4)),
         3: (Fr(-1, 8), Fr(-1, 8), Fr(1, 8), Fr(1, 8))}
    if i in h:
        return h[i]
    p = legendre(i - 2)
    for _ in range(2):
        p = list(_int(p))
        p[0] -= pval(tuple(p), Fr(-1))
        p = tuple(p)
    return p


def flag(i, fl):
    return fl[i] if i < 4 else 1.


@lru_cache(None)
def _fcoef(i, d):
    return np.array([float(c) for c in pder(bardell(i), d)])


@lru_cache(200000)
def _basis(n, xi, d, fl):
    out = np.empty(n)
    for i in range(n):
        s = 0.
        for c in _fcoef(i, d)[::-1]:
            s = s * xi + c
        out[i] = s * flag(i, fl)
    out.flags.writeable = False
    return out


def basis(n, xi, d, fl):
    """Array (n,) of d-th derivatives (wrt xi) of the first n functions"""
    return _basis(n, float(xi), d, fl)


@lru_cache(None)
def gauss(n):
    return np.polynomial.legendre.leggauss(n)


# --------------------------------------------------------------------------
# Classical lamination theory
# --------------------------------------------------------------------------
def qbar(prop, theta):
    e1, e2, nu12, g12 = (prop[0], prop[0], prop[1], prop[0] / (2 * (1 + prop[1]))) if len(prop) == 2 else prop[:4]
    nu21 = nu12 * e2 / e1
    den = 1 - nu12 * nu21
    Q = np.array([[e1 / den, nu12 * e2 / den, 0], [nu12 * e2 / den, e2 / den, 0], [0, 0, g12]])
    t = math.radians(theta)
    c, s = math.cos(t), math.sin(t)
    # strain transformation (engineering shear): eps_local = R eps_global
    R = np.array([[c * c, s * s, c * s], [s * s, c * c, -c * s], [-2 * c * s, 2 * c * s, c * c - s * s]])
    return R.T @ Q @ R


def abd(stack, plyts, props, offset=0.):
    out = np.zeros((6, 6))
    z = -sum(plyts) / 2. + offset
    for th, t, p in zip(stack, plyts, props):
        Q = qbar(p, th)
        z1 = z + t
        out[:3, :3] += Q * (z1 - z)
        out[:3, 3:] += Q * (z1**2 - z**2) / 2
        out[3:, :3] += Q * (z1**2 - z**2) / 2
        out[3:, 3:] += Q * (z1**3 - z**3) / 3
        z = z1
    return out


def rho_moments(plyts, rhos, offset=0.):
    """(int rho, int rho z, int rho z^2) through the thickness"""
    I = [0., 0., 0.]
    z = -sum(plyts) / 2. + offset
    for t, r in zip(plyts, rhos):
        z1 = z + t
        for k in range(3):
            I[k] += r * (z1**(k + 1) - z**(k + 1)) / (k + 1)
        z = z1
    return I


# --------------------------------------------------------------------------
# Ritz displacement field of one rectangular domain
# --------------------------------------------------------------------------
EDGE = ('x1', 'x2', 'y1', 'y2')


class Domain:
    """Displacement field of a shell domain; p: dict with a, b, r, m, n, flags

    flags: dict with the 24 attributes 'x1u', 'x1ur', ..., 'y2wr'.
    """

    def __init__(self, a, b, m, n, flags, r=None, sf=1.):
        self.sf = sf        # factor of the non-linear part of the shear strain (1 in von Karman's theory); its variation keeps 1
        self.a, self.b, self.m, self.n, self.r = float(a), float(b), int(m), int(n), r
        self.fl = {}
        for d in 'uvw':
            self.fl['x' + d] = tuple(float(flags[k]) for k in ('x1' + d, 'x1' + d + 'r', 'x2' + d, 'x2' + d + 'r'))
            self.fl['y' + d] = tuple(float(flags[k]) for k in ('y1' + d, 'y1' + d + 'r', 'y2' + d, 'y2' + d + 'r'))
        self.size = 3 * self.m * self.n

    def op(self, comp, x, y, dx=0, dy=0):
        """Row vector R such that d^(dx+dy) comp/dx^dx dy^dy at (x, y) = R.c"""
        xi = 2. * x / self.a - 1.
        eta = 2. * y / self.b - 1.
        f = basis(self.m, xi, dx, self.fl['x' + comp]) * (2. / self.a)**dx
        g = basis(self.n, eta, dy, self.fl['y' + comp]) * (2. / self.b)**dy
        out = np.zeros(self.size)
        k = 'uvw'.index(comp)
        out[k::3] = np.outer(g, f).ravel()      # index j*m + i
        return out

    def ops(self, x, y):
        """dict of every operator needed, at one point"""
        o = {}
        for nm, (c, dx, dy) in dict(u=('u', 0, 0), v=('v', 0, 0), w=('w', 0, 0), ux=('u', 1, 0), uy=('u', 0, 1),
                                    vx=('v', 1, 0), vy=('v', 0, 1), wx=('w', 1, 0), wy=('w', 0, 1),
                                    wxx=('w', 2, 0), wyy=('w', 0, 2), wxy=('w', 1, 1)).items():
            o[nm] = self.op(c, x, y, dx, dy)
        return o

    def BL(self, o):
        """Linear strain-displacement matrix (6, size): Donnell, w positive outwards"""
        eyy = o['vy'] + (o['w'] / self.r if self.r else 0.)
        return np.array([o['ux'], eyy, o['uy'] + o['vx'], -o['wxx'], -o['wyy'], -2 * o['wxy']])

    def strain(self, c, x, y, NL):
        o = self.ops(x, y)
        e = self.BL(o) @ c
        if NL:
            wx, wy = o['wx'] @ c, o['wy'] @ c
            e = e + np.array([wx * wx / 2, wy * wy / 2, self.sf * wx * wy, 0, 0, 0])
        return e

    def BNL(self, o, c):
        """Variation of the von Karman strains"""
        wx, wy = o['wx'] @ c, o['wy'] @ c
        z = np.zeros(self.size)
        return np.array([wx * o['wx'], wy * o['wy'], wx * o['wy'] + wy * o['wx'], z, z, z])

    def grid(self, nx, ny, x1=0., x2=None, y1=0., y2=None):
        """(x, y, weight) quadrature over the (sub)domain, physical coordinates"""
        x2 = self.a if x2 is None else x2
        y2 = self.b if y2 is None else y2
        px, wx = gauss(nx)
        py, wy = gauss(ny)
        for i in range(nx):
            for j in range(ny):
                yield (x1 + (px[i] + 1) / 2 * (x2 - x1), y1 + (py[j] + 1) / 2 * (y2 - y1),
                       wx[i] * wy[j] * (x2 - x1) * (y2 - y1) / 4, i, j)

    # -- assembled quantities ------------------------------------------------
    def kC(self, ABD, c=None, NL=False, nx=None, ny=None, sub=(), field=None):
        nx, ny = nx or max(self.m, 4) + 1, ny or max(self.n, 4) + 1
        K = np.zeros((self.size, self.size))
        for x, y, wt, i, j in self.grid(nx, ny, *sub):
            o = self.ops(x, y)
            B = self.BL(o)
            if NL and c is not None:
                B = B + self.BNL(o, c)
            F = ABD if field is None else field[i, j]
            K += wt * B.T @ F @ B
        return K

    def kG(self, N=(0., 0., 0.), ABD=None, c=None, NL=False, nx=None, ny=None, sub=(), field=None):
        nx, ny = nx or max(self.m, 4) + 1, ny or max(self.n, 4) + 1
        K = np.zeros((self.size, self.size))
        for x, y, wt, i, j in self.grid(nx, ny, *sub):
            o = self.ops(x, y)
            Nt = np.array(N, dtype=float)
            if c is not None:
                e = self.BL(o) @ c
                if NL:
                    wx, wy = o['wx'] @ c, o['wy'] @ c
                    e = e + np.array([wx * wx / 2, wy * wy / 2, self.sf * wx * wy, 0, 0, 0])
                F = ABD if field is None else field[i, j]
                Nt = Nt + (F @ e)[:3]
            G = np.array([o['wx'], o['wy']])
            K += wt * G.T @ np.array([[Nt[0], Nt[2]], [Nt[2], Nt[1]]]) @ G
        return K

    def kM(self, I0, I1, I2, nx=None, ny=None, sub=(), field=None):
        nx, ny = nx or max(self.m, 4) + 1, ny or max(self.n, 4) + 1
        K = np.zeros((self.size, self.size))
        for x, y, wt, i, j in self.grid(nx, ny, *sub):
            o = self.ops(x, y)
            J0, J1, J2 = (I0, I1, I2) if field is None else field[i, j]
            # u(z) = u - z w,x ; v(z) = v - z w,y ; w
            for d, s in (('u', 'wx'), ('v', 'wy')):
                K += wt * (J0 * np.outer(o[d], o[d]) + J2 * np.outer(o[s], o[s])
                           - J1 * (np.outer(o[d], o[s]) + np.outer(o[s], o[d])))
            K += wt * J0 * np.outer(o['w'], o['w'])
        return K

    def energy(self, ABD, c, NL, nx, ny, field=None):
        U = 0.
        for x, y, wt, i, j in self.grid(nx, ny):
            e = self.strain(c, x, y, NL)
            U += .5 * wt * e @ (ABD if field is None else field[i, j]) @ e
        return U

    def fint(self, ABD, c, nx, ny, field=None, sub=()):
        f = np.zeros(self.size)
        for x, y, wt, i, j in self.grid(nx, ny, *sub):
            o = self.ops(x, y)
            e = self.strain(c, x, y, True)
            F = ABD if field is None else field[i, j]
            f += wt * (self.BL(o) + self.BNL(o, c)).T @ (F @ e)
        return f

    def excess(self, ABD, c, nx, ny, field=None, d=None):
        """What a non-linear shear strain of 2 w,x w,y adds to the internal forces; with d, the part of its
        derivative along d that comes from the change of the stress"""
        f = np.zeros(self.size)
        for x, y, wt, i, j in self.grid(nx, ny):
            o = self.ops(x, y)
            F = ABD if field is None else field[i, j]
            wx, wy = o['wx'] @ c, o['wy'] @ c
            g = wx * wy if d is None else wx * (o['wy'] @ d) + wy * (o['wx'] @ d)
            f += wt * g * ((self.BL(o) + self.BNL(o, c)).T @ F[:, 2])
        return f

    def kA(self, beta, gamma, flow, nx=None, ny=None):
        """LHS aerodynamic matrix: beta * int w_A w_B,s - gamma * int w_A w_B"""
        nx, ny = nx or max(self.m, 4) + 1, ny or max(self.n, 4) + 1
        K = np.zeros((self.size, self.size))
        for x, y, wt, i, j in self.grid(nx, ny):
            w = self.op('w', x, y)
            ws = self.op('w', x, y, 1, 0) if flow == 'x' else self.op('w', x, y, 0, 1)
            K += wt * (beta * np.outer(w, ws) - gamma * np.outer(w, w))
        return K

    def line(self, axis, n):
        """(position, weight) along an edge parallel to axis 'x' or 'y'"""
        L = self.a if axis == 'x' else self.b
        p, w = gauss(n)
        return [((p[i] + 1) / 2 * L, w[i] * L / 2) for i in range(n)]


def relerr(A, B, scale=None):
    """max|A-B| over the largest magnitude of the two (or of scale)"""
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    s = max(np.abs(A).max(initial=0.), np.abs(B).max(initial=0.)) if scale is None else scale
    d = np.abs(A - B).max(initial=0.)
    if not np.isfinite(d):
        return float('inf')
    return d / s if s > 0 else d
