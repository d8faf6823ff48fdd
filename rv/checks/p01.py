"""P01: matrix Fourier transforms equal the Fraunhofer integral on the stated grids."""
import numpy as np
from falco import prop
from rv.core import rng_of

RULE = ('random pupil/focal sizes (odd, even, rectangular), samplings with unequal horizontal and vertical steps, '
        'wavelengths, focal lengths and both centerings; distinct = (direction, size parities, centering, square/rect, '
        'equal/unequal step); a case is non-trivial when the field has no symmetry (complex noise times an off-centre lobe)')


def cases(tier, seed):
    n = 24 if tier == 'quick' else 240
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in ('p2f', 'f2p', 'round')]


def axis(n, step, centering):
    a = (np.arange(n) - n//2)*step
    if n % 2 == 0 and centering == 'interpixel':
        a = a + step/2
    return a


def field(r, ny, nx):
    a = r.normal(size=(ny, nx)) + 1j*r.normal(size=(ny, nx))
    y, x = np.mgrid[:ny, :nx]
    return a*np.exp(-((x-0.3*nx)/(0.5*nx))**2 - ((y-0.6*ny)/(0.4*ny))**2)


def run_case(case, mon):
    r = rng_of(case)
    cen = ['pixel', 'interpixel'][int(r.integers(2))]
    fl = float(r.uniform(0.3, 30))
    lam = float(10**r.uniform(-7, -5))
    N = int(r.integers(2, 49))
    D = 10**r.uniform(-3, 0.5)
    dx = D/N
    Nxi, Neta = (int(v) for v in r.integers(1, 40, 2))
    unit = fl*lam/D
    dxi = unit*r.uniform(0.1, 1.2)
    deta = dxi if r.random() < 0.3 else unit*r.uniform(0.1, 1.2)
    k = case['kind']
    sig = (k, N % 2, Nxi % 2, Neta % 2, cen, Nxi == Neta, dxi == deta)
    if k == 'p2f':
        E = field(r, N, N)
        if r.random() < 0.2:
            E = E.real
        E0 = E.copy()
        out = prop.mft_p2f(E, fl, lam, dx, dxi, Nxi, deta, Neta, centering=cen)
        mon.equal(E, E0, 'input-mutated', 'forward MFT changed its input')
        x = axis(N, dx, cen)
        xi, eta = axis(Nxi, dxi, cen), axis(Neta, deta, cen)
        ref = np.zeros((Neta, Nxi), complex)
        X, Y = np.meshgrid(x, x)
        for _ in range(12):
            a, b = int(r.integers(Neta)), int(r.integers(Nxi))
            ref[a, b] = np.sum(E*np.exp(-2j*np.pi/(lam*fl)*(X*xi[b] + Y*eta[a])))*dx*np.sqrt(dxi*deta)/(lam*fl)
            mon.close(out[a, b], ref[a, b], 'p2f-integral', 'forward MFT sample differs from the diffraction integral',
                      rtol=1e-10, scale=np.sum(np.abs(E))*dx*np.sqrt(dxi*deta)/(lam*fl), N=N, Nxi=Nxi, Neta=Neta, cen=cen)
        mon.check(out.shape == (Neta, Nxi), 'p2f-shape', 'forward MFT output shape', shape=out.shape)
        A, c = field(r, N, N), complex(r.normal(), r.normal())
        mon.close(prop.mft_p2f(E + c*A, fl, lam, dx, dxi, Nxi, deta, Neta, centering=cen),
                  out + c*prop.mft_p2f(A, fl, lam, dx, dxi, Nxi, deta, Neta, centering=cen),
                  'p2f-linear', 'forward MFT is not linear', rtol=1e-10)
        mon.sample(N=N, Nxi=Nxi, Neta=Neta, dxi=dxi, deta=deta, centering=cen)
    elif k == 'f2p':
        E = field(r, Neta, Nxi)
        E0 = E.copy()
        out = prop.mft_f2p(E, fl, lam, dxi, deta, dx, N, centering=cen)
        mon.equal(E, E0, 'input-mutated', 'inverse-direction MFT changed its input')
        x = axis(N, dx, cen)
        xi, eta = axis(Nxi, dxi, cen), axis(Neta, deta, cen)
        X, Y = np.meshgrid(xi, eta)
        mon.check(out.shape == (N, N), 'f2p-shape', 'shape', shape=out.shape)
        for _ in range(12):
            a, b = (int(v) for v in r.integers(N, size=2))
            ref = np.sum(E*np.exp(-2j*np.pi/(lam*fl)*(X*x[b] + Y*x[a])))*dx*np.sqrt(dxi*deta)/(lam*fl)
            mon.close(out[a, b], ref, 'f2p-integral', 'focus-to-pupil MFT sample differs from the diffraction integral',
                      rtol=1e-10, scale=np.sum(np.abs(E))*dx*np.sqrt(dxi*deta)/(lam*fl), dxi=dxi, deta=deta, cen=cen)
        A, c = field(r, Neta, Nxi), complex(r.normal(), r.normal())
        mon.close(prop.mft_f2p(E + c*A, fl, lam, dxi, deta, dx, N, centering=cen),
                  out + c*prop.mft_f2p(A, fl, lam, dxi, deta, dx, N, centering=cen),
                  'f2p-linear', 'focus-to-pupil MFT is not linear', rtol=1e-10)
    else:
        # full-band grid: the transform is unitary and the round trip is a 180 degree rotation
        N = 2*int(r.integers(2, 24)) if r.random() < 0.7 else 2*int(r.integers(2, 24)) + 1
        dx = D/N
        # integer oversampling along each axis keeps the grid a whole number of periods' bandwidth
        px, py = (int(v) for v in r.integers(1, 4, 2))
        Nxi, Neta = px*N, py*N
        dxi, deta = lam*fl/(N*dx)/px, lam*fl/(N*dx)/py
        E = field(r, N, N)
        F = prop.mft_p2f(E, fl, lam, dx, dxi, Nxi, deta, Neta, centering=cen)
        mon.close(np.sum(np.abs(F)**2), np.sum(np.abs(E)**2), 'unitary', 'energy is not conserved on a full-band grid', rtol=1e-9)
        B = prop.mft_f2p(F, fl, lam, dxi, deta, dx, N, centering=cen)
        # rotate about the coordinate origin of the grid
        rot = E[::-1, ::-1]
        if N % 2 == 0 and cen == 'pixel':
            rot = np.roll(rot, (1, 1), axis=(0, 1))
            # the first row/column (the unpaired edge) aliases; compare elsewhere too
        mon.close(B[1:, 1:], rot[1:, 1:], 'roundtrip', 'pupil-focus-pupil is not a 180-degree relay', rtol=1e-9,
                  N=N, px=px, py=py, cen=cen)
        mon.close(prop.relay(E, 1, centering=cen if N % 2 == 0 else 'interpixel')[1:, 1:], B[1:, 1:], 'relay-consistent',
                  'an odd relay differs from two consecutive Fourier transforms', rtol=1e-9)
        sig = (k, N % 2, px, py, cen)
    mon.seen(*sig)
