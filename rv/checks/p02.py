"""P02: free-space propagation and re-imaging relays."""
import numpy as np
from falco import prop
from rv.core import rng_of

RULE = ('random fields (noise, off-centre Gaussian, plane-wave modes), sizes odd/even, distances of both signs incl. 0, '
        'relay counts incl. negative/large; distinct = (kind, parity, sign of distance, centering, relay parity)')


def cases(tier, seed):
    n = 20 if tier == 'quick' else 200
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in ('ptp', 'mode', 'gauss', 'relay')]


def run_case(case, mon):
    r = rng_of(case)
    k = case['kind']
    N = int(r.integers(8, 90))
    W = float(10**r.uniform(-2.5, 0))
    lam = float(10**r.uniform(-6.8, -5.5))
    E = r.normal(size=(N, N)) + 1j*r.normal(size=(N, N))
    E0 = E.copy()
    zc = N*(W/N)**2/lam  # critical distance of the sampling
    if k == 'ptp':
        z1, z2 = (float(v) for v in r.uniform(-1, 1, 2)*zc)
        out = prop.ptp(E, W, lam, z1)
        mon.equal(E, E0, 'input-mutated', 'propagation changed its input')
        P = np.sum(np.abs(E)**2)
        mon.close(np.sum(np.abs(out)**2), P, 'energy', 'free-space propagation does not conserve energy', rtol=1e-10)
        mon.close(prop.ptp(out, W, lam, -z1), E, 'reversible', 'propagating back does not restore the field', rtol=1e-9)
        mon.close(prop.ptp(out, W, lam, z2), prop.ptp(E, W, lam, z1+z2), 'additive', 'propagations do not compose', rtol=1e-8)
        mon.close(prop.ptp(E, W, lam, 0), E, 'zero', 'zero distance changes the field', rtol=0)
        a = complex(r.normal(), r.normal())
        B = r.normal(size=(N, N)) + 1j*r.normal(size=(N, N))
        mon.close(prop.ptp(a*E+B, W, lam, z1), a*out + prop.ptp(B, W, lam, z1), 'linear', 'not linear', rtol=1e-9)
        s = tuple(int(v) for v in r.integers(-N, N, 2))
        mon.close(prop.ptp(np.roll(E, s, (0, 1)), W, lam, z1), np.roll(out, s, (0, 1)), 'shift-invariant',
                  'propagation is not shift invariant', rtol=1e-9)
        mon.close(prop.ptp(E.T.copy(), W, lam, z1), out.T, 'isotropic', 'propagation distinguishes the two axes', rtol=1e-9)
        mon.sample(N=N, width=W, wavelength=lam, z1=z1, z2=z2)
        mon.seen(k, N % 2, z1 > 0, z2 > 0)
    elif k == 'mode':
        # plane-wave modes are eigenfunctions with the paraxial (Fresnel) eigenvalue
        m, n = (int(v) for v in r.integers(-(N//2), (N+1)//2, 2))
        x = np.arange(N)/N
        M = np.exp(2j*np.pi*(m*x[None, :] + n*x[:, None]))
        z = float(r.uniform(-3, 3)*zc)
        ref = M*np.exp(-1j*np.pi*lam*z*(m*m+n*n)/W**2)
        mon.close(prop.ptp(M, W, lam, z), ref, 'eigenvalue', 'plane-wave component gets the wrong phase', rtol=1e-8, N=N, m=m, n=n, z_over_zc=z/zc)
        mon.seen(k, N % 2, m, n)
    elif k == 'gauss':
        N = 2*int(r.integers(48, 80))
        w0 = W/14
        zr = np.pi*w0**2/lam
        z = float(r.uniform(-1.2, 1.2)*zr)
        dx = W/N
        x = (np.arange(N) - N//2)*dx
        cx, cy = (float(v) for v in r.uniform(-2, 2, 2)*dx*4)
        R2 = (x[None, :]-cx)**2 + (x[:, None]-cy)**2
        g = np.exp(-R2/w0**2)
        out = prop.ptp(g, W, lam, z)
        q = 1 + 1j*z/zr   # exp(-i k r^2 ...) convention: eigenvalue exp(-i pi lam z f^2)
        ref = np.exp(-R2/(w0**2*q))/q
        mon.close(out, ref, 'gaussian-beam', 'a Gaussian beam does not follow its analytic evolution', rtol=1e-5, z_over_zr=z/zr)
        mon.seen(k, z > 0, round(z/zr, 1))
    else:
        nr = int(r.integers(-5, 30))
        ny, nx = (int(v) for v in r.integers(1, 40, 2))
        cen = ['pixel', 'interpixel'][int(r.integers(2))]
        A = r.normal(size=(ny, nx)) + 1j*r.normal(size=(ny, nx))
        A0 = A.copy()
        out = prop.relay(A, nr, centering=cen)
        mon.equal(A, A0, 'input-mutated', 'relay changed its input')
        ref = A
        if nr % 2:
            iy = (np.arange(ny)[::-1] + (ny if cen == 'interpixel' else 1) - (0)) % ny
            off = 1 if cen == 'pixel' else 0
            ref = np.empty_like(A)
            for i in range(ny):
                for j in range(nx):
                    ref[i, j] = A[(-i - 1 + off) % ny, (-j - 1 + off) % nx]
        mon.equal(out, ref, 'relay-rotation', 'relay is not a rotation by 180 degrees per relay about the array centre',
                  nr=nr, shape=(ny, nx), cen=cen)
        mon.equal(prop.relay(prop.relay(A, nr, centering=cen), nr, centering=cen), A, 'relay-involution', 'two equal relays are not the identity')
        mon.seen(k, nr % 2, cen, ny % 2, nx % 2)
