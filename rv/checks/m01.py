"""M01: analytically defined masks equal the pixel coverage of their geometry."""
import copy

import numpy as np
from falco import mask
from rv.core import rng_of

RULE = ('random sizes, centerings, shears, clockings, stretches, magnifications and openings of simple pupils, ellipses, stops, '
        'bowtie and annular masks, each compared pixel by pixel with a supersampled model of the stated geometry; '
        'distinct = (generator, centering, options in use)')

KINDS = ('ellipse', 'simple', 'simpleHG', 'annfpm', 'bowfpm', 'bowls', 'dmstop', 'vortexmask', 'resize')


def cases(tier, seed):
    n = 12 if tier == 'quick' else 150
    return [dict(kind=k, i=i, seed=seed) for i in range(n) for k in KINDS]


def coverage(N, cen, dx, inside, s=11):
    """fraction of each pixel inside the geometry, and whether it is away from every edge"""
    c = (np.arange(N) - N//2)*dx + (dx/2 if cen == 'interpixel' else 0)
    o = (np.arange(s) - (s-1)/2)/s*dx
    acc = np.zeros((N, N))
    for a in o:
        for b in o:
            acc += inside(c[None, :]+a, c[:, None]+b)
    # a pixel is far from every edge when its whole 5x5 neighbourhood is uniform
    p = np.pad(acc/s**2, 2, mode='edge')
    nb = np.stack([p[i:i+N, j:j+N] for i in range(5) for j in range(5)])
    far = (nb.max(0) == nb.min(0)) & ((nb[0] == 0) | (nb[0] == 1) | (nb.max(0) == nb.min(0)))
    return acc/s**2, far


def rot(x, y, deg):
    """coordinates in a frame turned counter-clockwise by deg"""
    t = np.radians(deg)
    return x*np.cos(t)+y*np.sin(t), -x*np.sin(t)+y*np.cos(t)


def compare(mon, got, cov, far, key, edge_tol, **data):
    if got.shape != cov.shape:
        mon.check(False, key + '-shape', 'array size', got=got.shape, want=cov.shape, **data)
        return
    mon.check(np.isrealobj(got) and got.min() >= -1e-12 and got.max() <= 1+1e-12, key + '-range', 'transmission outside [0, 1]')
    mon.close(got[far], cov[far], key + '-body', 'a pixel clearly inside/outside the geometry has the wrong value', atol=2e-6, rtol=0, **data)
    if np.any(~far):
        mon.close(got[~far], cov[~far], key + '-edge', 'an edge pixel is not its covered fraction', atol=edge_tol, rtol=0, **data)
        mon.check(abs(np.sum(got - cov)) <= 0.01*np.sum(~far) + 0.3, key + '-area', 'masked area is biased',
                  diff=float(np.sum(got-cov)), edge=int(np.sum(~far)), **data)


def run_case(case, mon):
    r = rng_of(case)
    k = case['kind']
    cen = ['pixel', 'interpixel'][int(r.integers(2))]
    opt = [bool(r.random() < 0.6) for _ in range(6)]
    if k == 'ellipse':
        Nb = float(r.integers(24, 50)) if r.random() < 0.7 else float(r.uniform(24, 50))
        N = 2*int(r.integers(20, 34))
        inp = dict(Nbeam=Nb, Narray=N, radiusX=float(r.uniform(0.15, 0.5)), radiusY=float(r.uniform(0.15, 0.5)), centering=cen)
        if opt[0]:
            inp['clockingDegrees'] = float(r.uniform(-180, 180))
        if opt[1]:
            inp['xShear'] = float(r.uniform(-0.15, 0.15))
        if opt[2]:
            inp['yShear'] = float(r.uniform(-0.15, 0.15))
        if opt[3]:
            inp['magFac'] = float(r.uniform(0.6, 1.3))
        i0 = copy.deepcopy(inp)
        got = mask.gen_ellipse(inp)
        mon.check(inp == i0, 'input-mutated', 'the input dictionary is changed')

        def inside(x, y):
            u, v = rot(x-inp.get('xShear', 0), y-inp.get('yShear', 0), inp.get('clockingDegrees', 0))
            m = inp.get('magFac', 1)
            return (u/(m*inp['radiusX']))**2 + (v/(m*inp['radiusY']))**2 <= 1
        cov, far = coverage(N, cen, 1/Nb, inside, 21)
        compare(mon, got, cov, far, k, 0.08, inp=inp)
        mon.equal(got, mask.falco_gen_ellipse(inp), k + '-alias', 'the two entry points differ')
        mon.seen(k, cen, *opt[:4])
    elif k in ('simple', 'simpleHG'):
        Nb = int(r.integers(40, 70))
        N = 2*int(r.integers(36, 44))
        inp = dict(Nbeam=Nb, Npad=N, OD=float(r.uniform(0.6, 1.0)), centering=cen)
        if opt[0]:
            inp['ID'] = float(r.uniform(0.1, 0.4))
        if opt[1]:
            inp['wStrut'] = float(r.uniform(0.02, 0.06)) if k == 'simple' else float(r.uniform(0.06, 0.12))
            inp['angStrut'] = [float(v) for v in r.uniform(-360, 360, int(r.integers(1, 5)))]
            if r.random() < 0.3:
                inp['angStrut'] = np.array(inp['angStrut'])
        if opt[2]:
            inp['xStretch'] = float(r.uniform(0.7, 1.1))
        if k == 'simple':
            if opt[3]:
                inp['clocking'] = float(r.uniform(-90, 90))
            if opt[4]:
                inp['xShear'] = float(r.uniform(-0.1, 0.1))
            if opt[5]:
                inp['yShear'] = float(r.uniform(-0.1, 0.1))
        else:
            inp['flagHG'] = True
            inp.pop('xStretch', None)
        i0 = copy.deepcopy(inp)
        got = mask.falco_gen_pupil_Simple(inp)
        mon.check(repr(inp) == repr(i0), 'input-mutated', 'the input dictionary is changed')

        def inside(x, y):
            x = x - inp.get('xShear', 0)
            y = y - inp.get('yShear', 0)
            u, v = rot(x, y, inp.get('clocking', 0))
            rho = np.hypot(u/inp.get('xStretch', 1), v)
            ok = rho <= inp['OD']/2
            if 'ID' in inp:
                ok = ok & (rho >= inp['ID']/2)
            if 'wStrut' in inp:
                for a in inp['angStrut']:
                    p, q = rot(x, y, a+inp.get('clocking', 0))
                    ok = ok & ~((np.abs(q) <= inp['wStrut']/2) & (p >= 0) & (p <= (0.6 if k == 'simple' else 9)))
            return ok
        cov, far = coverage(N, cen, 1/Nb, inside, 21)
        far[N//2-1:N//2+2, N//2-1:N//2+2] = False  # struts start at the very centre
        if k == 'simple':
            # strut/ring junctions multiply coverages, so corners are looser
            compare(mon, got, cov, far, k, 0.30 if 'wStrut' in inp else 0.08, inp=inp)
            mon.check(np.mean(np.abs(got-cov)[~far]) < 0.03, k + '-edge-mean', 'edge pixels are biased', inp=inp,
                      mean=float(np.mean(np.abs(got-cov)[~far])))
        else:
            mon.close(got[far], cov[far], k + '-body', 'hyper-Gaussian pupil has the wrong support', atol=0.01, rtol=0, inp=inp)
        bad = dict(inp, ID=inp['OD']*1.1)
        mon.raises(ValueError, lambda: mask.falco_gen_pupil_Simple(bad), k + '-reject', 'inner diameter larger than outer accepted')
        mon.seen(k, cen, *opt)
    elif k in ('annfpm', 'bowfpm'):
        res = float(r.uniform(2, 6))
        rin, rout = float(r.uniform(1.5, 4)), float(r.uniform(5, 9))
        inp = dict(pixresFPM=res, rhoInner=rin, rhoOuter=rout, centering=cen)
        if opt[0]:
            inp['xOffset'] = float(r.uniform(-3, 3))
        if opt[1]:
            inp['yOffset'] = float(r.uniform(-3, 3))
        if k == 'annfpm':
            if opt[2]:
                inp['rhoOuter'] = np.inf
            if opt[3]:
                inp['FPMampFac'] = float(r.uniform(0, 1))
        else:
            inp['ang'] = float(r.uniform(20, 175)) if opt[2] else 180
            if opt[3]:
                inp['clocking'] = float(r.uniform(-180, 180))
        size = inp['rhoOuter'] if np.isfinite(inp['rhoOuter']) else rin
        N0 = 2*(size + max(abs(inp.get('xOffset', 0)), abs(inp.get('yOffset', 0))))*res + (1 if cen == 'pixel' else 0)
        if opt[4]:
            inp['Narray'] = 2*int(np.ceil(N0/2)) + 2*int(r.integers(0, 4))
        i0 = copy.deepcopy(inp)
        got = (mask.gen_annular_fpm if k == 'annfpm' else mask.gen_bowtie_fpm)(inp)
        mon.check(inp == i0, 'input-mutated', 'the input dictionary is changed')
        N = inp.get('Narray', 2*int(np.ceil(N0/2 - 1e-9)))

        def geom(x, y):
            u, v = x-inp.get('xOffset', 0), y-inp.get('yOffset', 0)
            rho = np.hypot(u, v)
            outer = rho <= inp['rhoOuter']
            spot = rho <= rin
            if k == 'bowfpm':
                p, q = rot(u, v, inp.get('clocking', 0))
                outer = outer & (np.arctan2(np.abs(q), np.abs(p)) <= np.radians(inp['ang']/2))
            return outer, spot
        amp = inp.get('FPMampFac', 0)

        def inside(x, y):
            outer, spot = geom(x, y)
            return outer*np.where(spot, amp, 1.0)
        cov, far = coverage(N, cen, 1/res, inside, 21)
        mon.check(got.shape == (N, N), k + '-shape', 'array is not the smallest even size holding the mask', got=got.shape, N=N, inp=inp)
        compare(mon, got, cov, far, k, 0.30 if k == 'bowfpm' else 0.08, inp=inp)
        mon.seen(k, cen, *opt[:5])
    elif k == 'bowls':
        Nb = int(r.integers(40, 80))
        inp = dict(Nbeam=Nb, ID=float(r.uniform(0.2, 0.5)), OD=float(r.uniform(0.7, 0.98)), ang=float(r.uniform(60, 175)), centering=cen)
        if opt[0]:
            inp['xShear'] = float(r.uniform(-0.1, 0.1))
        if opt[1]:
            inp['yShear'] = float(r.uniform(-0.1, 0.1))
        if opt[2]:
            inp['clocking'] = float(r.uniform(-180, 180))
        if opt[3]:
            inp['magfac'] = float(r.uniform(0.8, 1.2))
        i0 = copy.deepcopy(inp)
        got = mask.gen_bowtie_lyot_stop(inp)
        mon.check(inp == i0, 'input-mutated', 'the input dictionary is changed')
        N = got.shape[0]
        m = inp.get('magfac', 1)

        def inside(x, y):
            u, v = x-inp.get('xShear', 0), y-inp.get('yShear', 0)
            rho = np.hypot(u, v)
            p, q = rot(u, v, inp.get('clocking', 0))
            return (rho <= m*inp['OD']/2) & (rho >= m*inp['ID']/2) & (np.arctan2(np.abs(p), np.abs(q)) <= np.radians(inp['ang']/2))
        cov, far = coverage(N, cen, 1/Nb, inside, 21)
        need = Nb*(m*1.0 + 2*max(abs(inp.get('xShear', 0)), abs(inp.get('yShear', 0))))
        mon.check(N % 2 == 0 and N >= need, k + '-fits', 'array too small for the mask', N=N, need=need)
        compare(mon, got, cov, far, k, 0.30, inp=inp)
        mon.seen(k, cen, *opt[:4])
    elif k == 'dmstop':
        dx = float(10**r.uniform(-5, -1))
        D = dx*float(r.uniform(10, 60))
        got = mask.falco_gen_DM_stop(dx, D, cen)
        N = 2*int(np.ceil((D/dx + (0.5 if cen == 'pixel' else 0))/2 - 1e-9))
        cov, far = coverage(N, cen, dx, lambda x, y: np.hypot(x, y) <= D/2, 21)
        compare(mon, got, cov, far, k, 0.13, dx=dx, D=D)
        mon.seen(k, cen, N)
    elif k == 'vortexmask':
        N = 2*int(r.integers(4, 60))
        ch = float(r.uniform(-8, 8)) if opt[0] else int(r.integers(-8, 9))
        got = mask.falco_gen_vortex_mask(ch, N)
        x = np.arange(N) - N//2
        X, Y = np.meshgrid(x, x)
        ref = np.exp(1j*ch*np.arctan2(Y, X))
        mon.close(got, ref, k, 'vortex phase', rtol=1e-10)
        mon.seen(k, N, opt[0])
    else:
        Nin, Nout = float(r.integers(120, 180)), float(r.integers(20, 50))
        n = 2*int(Nin/2*1.2) + int(r.integers(2))
        off = [float(v) for v in r.uniform(-4, 4, 2)]
        deg = float(r.uniform(-180, 180)) if opt[0] else 0
        x = np.arange(n) - n//2
        X, Y = np.meshgrid(x, x)

        def shape(X, Y, D):
            return ((np.hypot(X, Y) < 0.42*D) & ~((X > 0) & (X < 0.3*D) & (Y > 0.02*D) & (Y < 0.2*D)))*1.0
        A = shape(X, Y, Nin)
        A0 = A.copy()
        got = mask.rotate_shift_downsample_pupil_mask(A, Nin, Nout, off[0], off[1], deg)
        mon.equal(A, A0, 'input-mutated', 'input changed')
        N = got.shape[0]
        mon.check(N % 2 == 0, k + '-even', 'array size')

        def inside(x, y):
            u, v = x-off[0]/Nout, y-off[1]/Nout
            u, v = rot(u, v, deg)
            return shape(u, v, 1.0)
        cov, far = coverage(N, 'pixel', 1/Nout, inside, 11)
        mon.close(got[far], cov[far], k + '-body', 'resampled mask has wrong support', atol=0.25, rtol=0, deg=deg, off=off)
        mon.check(np.mean(np.abs(got-cov)) < 0.02, k + '-mean', 'resampled mask is displaced or rotated', mean=np.mean(np.abs(got-cov)), deg=deg, off=off)
        mon.seen(k, opt[0], int(Nout), n % 2)
