"""U01: array geometry helpers keep the FFT-style centre."""
import numpy as np
from falco import util
from rv.core import rng_of

RULE = ('random shapes (odd/even/rectangular/1-pixel), dtypes, off-array centres, chains of pads and crops; '
        'distinct = (function, parity pattern of in and out sizes, in/out of array)')


def cases(tier, seed):
    n = 40 if tier == 'quick' else 600
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in ('pad', 'chain', 'offc', 'bin', 'axis', 'scalar')]


def arr(r, ny, nx):
    k = int(r.integers(4))
    if k == 0:
        return r.normal(size=(ny, nx))
    if k == 1:
        return r.normal(size=(ny, nx)) + 1j*r.normal(size=(ny, nx))
    if k == 2:
        return r.integers(1, 1000, size=(ny, nx))
    return r.normal(size=(ny, nx)).astype(np.float32)


def model_place(A, ny, nx, cr, cc, fill=0):
    """out[i, j] = A[cr + i - ny//2, cc + j - nx//2], or fill outside."""
    out = np.full((ny, nx), fill, dtype=A.dtype)
    for i in range(ny):
        for j in range(nx):
            a, b = cr + i - ny//2, cc + j - nx//2
            if 0 <= a < A.shape[0] and 0 <= b < A.shape[1]:
                out[i, j] = A[a, b]
    return out


def run_case(case, mon):
    r = rng_of(case)
    k = case['kind']
    ny, nx, my, mx = (int(v) for v in r.integers(1, 20, 4))
    A = arr(r, ny, nx)
    A0 = A.copy()
    if k == 'pad':
        fill = 0 if r.random() < 0.6 else int(r.integers(1, 9))
        if r.random() < 0.3:
            mx = my
            size = my
        else:
            size = [(my, mx), [my, mx], np.array([my, mx])][int(r.integers(3))]
        out = util.pad_crop(A, size, extrapval=fill)
        mon.equal(out, model_place(A, my, mx, ny//2, nx//2, fill), 'pad-crop', 'pad/crop does not keep the centre pixel',
                  shape_in=A.shape, shape_out=(my, mx))
        mon.check(out.dtype == A.dtype, 'pad-dtype', 'data type changes', was=str(A.dtype), now=str(out.dtype))
        out[:] = 7
        mon.equal(A, A0, 'pad-alias', 'result shares memory with the input')
        mon.seen(k, ny % 2, nx % 2, my % 2, mx % 2, my > ny, mx > nx, fill != 0)
    elif k == 'chain':
        sizes = [(max(ny, int(a)), max(nx, int(b))) for a, b in r.integers(1, 40, size=(4, 2))]
        out = A
        for s in sizes:
            out = util.pad_crop(out, s)
        last = (my, mx)
        mon.equal(util.pad_crop(out, last), util.pad_crop(A, last), 'pad-transitive', 'chained pads and crops disagree with the direct one',
                  sizes=sizes, last=last)
        E = util.pad_to_even_square(A)
        n = max(ny, nx) + max(ny, nx) % 2
        mon.equal(E, model_place(A, n, n, ny//2, nx//2), 'even-square', 'even square padding')
        mon.equal(A, A0, 'input-mutated', 'input changed')
        mon.seen(k, ny % 2, nx % 2, tuple(s[0] % 2 for s in sizes))
    elif k == 'offc':
        cr, cc = float(r.uniform(-8, ny+8)), float(r.uniform(-8, nx+8))
        if r.random() < 0.5:
            cr, cc = int(cr), int(cc)
        if abs(cr - np.floor(cr) - 0.5) < 1e-6 or abs(cc - np.floor(cc) - 0.5) < 1e-6:
            return
        out = util.offcenter_crop(A, cr, cc, my, mx)
        mon.equal(out, model_place(A, my, mx, int(np.round(cr)), int(np.round(cc))), 'offcenter-crop',
                  'off-centre crop does not put the requested pixel at the centre', shape_in=A.shape, shape_out=(my, mx), center=(cr, cc))
        mon.equal(A, A0, 'input-mutated', 'input changed')
        mon.seen(k, ny % 2, nx % 2, my % 2, mx % 2, cr < 0, cr >= ny, cc < 0, cc >= nx)
    elif k == 'bin':
        f = int(r.integers(1, 6))
        B = r.normal(size=(ny*f, nx*f))
        out = util.bin_downsample(B, f)
        ref = np.array([[np.mean(B[i*f:(i+1)*f, j*f:(j+1)*f]) for j in range(nx)] for i in range(ny)])
        mon.close(out, ref, 'bin', 'binned pixel is not the mean of its block', rtol=1e-12, scale=np.max(np.abs(B)))
        mon.close(np.mean(out), np.mean(B), 'bin-mean', 'binning changes the mean', rtol=1e-12, scale=np.max(np.abs(B)))
        if f > 1:
            mon.raises(ValueError, lambda: util.bin_downsample(B[:-1], f), 'bin-reject', 'indivisible size accepted')
            mon.raises(ValueError, lambda: util.bin_downsample(B[:, 1:], f), 'bin-reject', 'indivisible size accepted')
        mon.seen(k, f, ny, nx)
    elif k == 'axis':
        N = int(r.integers(1, 60))
        st = float(10**r.uniform(-6, 3))
        for cen in ('pixel', 'interpixel'):
            a = util.create_axis(N, st, centering=cen)
            ref = (np.arange(N) - N//2)*st + (st/2 if (N % 2 == 0 and cen == 'interpixel') else 0)
            mon.close(a, ref, 'axis', 'coordinate axis', rtol=1e-13, atol=0)
            xs, ys = (float(v) for v in r.uniform(0.5, 2, 2))
            X, Y = np.meshgrid(ref, ref)
            mon.close(util.radial_grid(a, xStretch=xs, yStretch=ys), np.hypot(X/xs, Y/ys), 'radial', 'radial grid', rtol=1e-12, atol=1e-300)
            mon.close(util.radial_grid_squared(a, xStretch=xs, yStretch=ys), (X/xs)**2 + (Y/ys)**2, 'radial2', 'squared radial grid', rtol=1e-12, atol=1e-300)
            ph = np.exp(1j*util.azimuthal_grid(a, xStretch=xs, yStretch=ys))
            nz = np.hypot(X, Y) > 0
            mon.close((ph*np.hypot(X/xs, Y/ys))[nz], (X/xs+1j*Y/ys)[nz], 'azimuth', 'azimuth grid', rtol=1e-12)
        rho, th = util.cart2pol(X, Y)
        mon.close(rho*np.exp(1j*th), X+1j*Y, 'cart2pol', 'polar conversion', rtol=1e-12, atol=1e-300)
        mon.seen(k, N)
    else:
        x = float(r.choice([r.uniform(-50, 50), r.integers(-50, 50), r.uniform(0, 1e-9), -r.uniform(0, 1e-9)]))
        e, o = util.ceil_even(x), util.ceil_odd(x)
        mon.check(isinstance(e, int) and e % 2 == 0 and x <= e < x+2, 'ceil-even', 'not the smallest even integer above', x=x, got=e)
        mon.check(isinstance(o, int) and o % 2 == 1 and x <= o < x+2, 'ceil-odd', 'not the smallest odd integer above', x=x, got=o)
        v = float(r.choice([r.uniform(-1e6, 1e6), 2.0**r.integers(-20, 40), r.uniform(-1e-3, 1e-3)]))
        if v != 0:
            p = util.nextpow2(v)
            mon.check(2.0**p >= abs(v)*(1-1e-12) and 2.0**(p-1) < abs(v), 'nextpow2', 'not the smallest power of two above', v=v, p=p)
        d = float(r.uniform(-720, 720))
        mon.close([util.sind(d), util.cosd(d)], [np.sin(d*np.pi/180), np.cos(d*np.pi/180)], 'degrees', 'trigonometry in degrees', rtol=0, atol=1e-12)
        sets = [list(range(int(n))) for n in r.integers(1, 4, int(r.integers(1, 5)))]
        c = util.allcomb(*sets)
        mon.check(len(c) == len(set(c)) == int(np.prod([len(s) for s in sets])) and all(q[i] in sets[i] for q in c for i in range(len(sets))),
                  'allcomb', 'not the Cartesian product')
        b = int(r.integers(1, 6))
        y = r.normal(size=20)
        s = util.smooth(y, b)
        mon.close(s[10], np.mean(y[10-b//2:10-b//2+b] if b % 2 else y[10-b//2:10+b//2]), 'smooth', 'moving average', rtol=1e-12, scale=np.max(np.abs(y)))
        N = 2*int(r.integers(4, 20))
        al, fig = float(r.uniform(1, 3)), float(r.uniform(0.1, 5))
        with np.errstate(all='ignore'):
            m = util.gen_simple_psd_errormap(N, al, fig)
        mon.close(np.sqrt(np.mean(m**2)), fig, 'errormap-rms', 'error map RMS is not the requested value', rtol=1e-9)
        mon.close(np.mean(m), 0, 'errormap-mean', 'error map has a mean', atol=1e-10*fig)
        mon.seen(k, int(np.sign(x)), e-o, b, N)
