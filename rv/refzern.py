"""Independent Zernike references, from the definition (exact integer
coefficients) and by numerical orthonormalisation over other pupils."""
import math
import numpy as np


def noll(j):
    """Radial order and azimuthal frequency of Noll's polynomial j (1-based)."""
    n, k = 0, 1
    while True:
        for m in range(n % 2, n+1, 2):
            for _ in range(2 if m else 1):
                if k == j:
                    return n, m
                k += 1
        n += 1


def zern(j, r, t):
    """Noll's polynomial j, of unit rms over the unit disk, at polar points (r, t)."""
    n, m = noll(j)
    R = 0
    for s in range((n-m)//2+1):
        c = (-1)**s*math.factorial(n-s)//(math.factorial(s)*math.factorial((n+m)//2-s)*math.factorial((n-m)//2-s))
        R = R + c*r**(n-2*s)
    if m == 0:
        return math.sqrt(n+1)*R*np.ones_like(t)
    return math.sqrt(2*(n+1))*R*(np.cos(m*t) if j % 2 == 0 else np.sin(m*t))


def scale(j, r):
    """Size of the terms summed in zern, which bounds its rounding error."""
    n, m = noll(j)
    return math.sqrt(2*(n+1))*sum(
        math.factorial(n-s)//(math.factorial(s)*math.factorial((n+m)//2-s)*math.factorial((n-m)//2-s))*r**(n-2*s)
        for s in range((n-m)//2+1))


def annular(j, eps, r, t):
    """Annular Zernike: the radial polynomials of each azimuthal frequency
    orthonormalised over eps<=r<=1 in exact-degree Gauss-Legendre quadrature,
    leading coefficient positive."""
    n, m = noll(j)
    ks = list(range(m, n+1, 2))
    x, w = np.polynomial.legendre.leggauss(40)
    rho = (x+1)/2*(1-eps) + eps
    wt = w*rho*(1-eps)/(1-eps**2)        # integrates to 1 over the annulus
    if m:
        wt = wt/2.0                      # mean of cos^2
    basis = [rho**k for k in ks]
    coef = []
    for i, b in enumerate(basis):
        c = np.zeros(len(ks))
        c[i] = 1
        for q in coef:
            qv = sum(a*bb for a, bb in zip(q, basis))
            c = c - q*np.sum(wt*qv*b)
        v = sum(a*bb for a, bb in zip(c, basis))
        c = c/math.sqrt(np.sum(wt*v*v))
        coef.append(c)
    R = sum(a*r**k for a, k in zip(coef[-1], ks))
    return R*(np.ones_like(t) if m == 0 else np.cos(m*t) if j % 2 == 0 else np.sin(m*t))


_HEX = {}


def hexagonal(N=700):
    """Coefficients (lower triangular, on the circular polynomials 1..22) of the
    polynomials orthonormal over a unit hexagon with a vertex on the x axis."""
    if N not in _HEX:
        x = (np.arange(N)+0.5)/N*2-1
        X, Y = np.meshgrid(x, x)
        h = math.sqrt(3)/2
        ins = (np.abs(Y) <= h) & (np.abs(X)*h + np.abs(Y)/2 <= h)
        r = np.hypot(X, Y)[ins]
        t = np.arctan2(Y, X)[ins]
        B = np.stack([zern(j, r, t) for j in range(1, 23)], 1)
        R = np.linalg.qr(B/math.sqrt(len(r)), mode='r')
        R = R*np.sign(np.diag(R))[:, None]
        _HEX[N] = np.linalg.inv(R)       # Q = B inv(R)
    return _HEX[N]


def hexzern(j, r, t):
    C = hexagonal()
    return sum(C[i-1, j-1]*zern(i, r, t) for i in range(1, j+1) if abs(C[i-1, j-1]) > 1e-13)
