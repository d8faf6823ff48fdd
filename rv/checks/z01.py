"""Z01: Zernike aberrations."""
import math
import numpy as np
import falco
import falco.proper as proper
from rv.core import rng_of
from rv import refzern as rz

RULE = ('random sets of polynomials (Noll 1-22 obscured, 1-600 unobscured), coefficients, pupil samplings, both centerings, '
        'fits over masks with holes and shifted centers, segmented apertures with omitted, shifted and rotated segments; '
        'distinct = (kind, polynomial, centering/obscuration class)')


def cases(tier, seed):
    n = 6 if tier == 'quick' else 60
    out = []
    for i in range(n):
        for k in ('maps', 'apply', 'obscured', 'text', 'fit', 'fitobs', 'hex', 'segments'):
            out.append(dict(kind=k, i=i, seed=seed))
    return out


def begin(r, n=None, lam=None):
    n = n or 2*int(r.integers(16, 50))
    lam = lam or float(10**r.uniform(-6.6, -5.5))
    D = float(10**r.uniform(-2, 1))
    f = float(r.uniform(0.3, 0.95))
    wf = proper.prop_begin(D, lam, n, f)
    return wf, n, lam, D, D/f/n


def polar(n, dx, off=0.0):
    x = (np.arange(n) - n//2 + off)*dx
    return np.hypot(x[None, :], x[:, None]), np.arctan2(x[:, None], x[None, :])


def run_case(case, mon):
    proper.print_it = False
    r = rng_of(case)
    k = case['kind']
    {'maps': maps, 'apply': apply_, 'obscured': obscured, 'text': text, 'fit': fit, 'fitobs': fitobs,
     'hex': hexa, 'segments': segments}[k](r, mon, case)


def maps(r, mon, case):
    cen = ['pixel', 'interpixel'][case['i'] % 2]
    Nb = float(r.choice([int(r.integers(20, 90)), 2*int(r.integers(12, 45)), r.uniform(20, 90)]))
    if Nb == int(Nb):
        Nb = int(Nb)
    hi = 25 if r.random() < 0.6 else 150
    idx = np.unique(r.integers(1, hi, int(r.integers(1, 5))))
    r.shuffle(idx)
    how = int(r.integers(3))
    arg = [idx, [int(v) for v in idx], int(idx[0])][how]
    ok, cube = mon.runs(lambda: falco.zern.gen_norm_zern_maps(Nb, cen, arg), 'maps-run', 'normalized maps of %s' % type(arg).__name__)
    if not ok:
        return
    if how == 2:
        idx = idx[:1]
    mon.check(cube.ndim == 3 and cube.shape[2] == len(idx) and cube.shape[0] == cube.shape[1] and cube.shape[0] >= Nb,
              'maps-shape', 'one square map per polynomial, wide enough for the beam', shape=cube.shape)
    n = cube.shape[0]
    rr, tt = polar(n, 2.0/Nb, 0.5 if cen == 'interpixel' else 0.0)
    ins = rr <= 1
    for q, j in enumerate(int(v) for v in idx):
        ref = rz.zern(j, rr, tt)
        mon.close(cube[:, :, q][ins], ref[ins], 'maps-value', 'a normalized map is not its Zernike polynomial over the beam',
                  atol=1e-10*float(np.max(rz.scale(j, rr[ins]))), rtol=1e-10, j=j, Nbeam=Nb, centering=cen)
        mon.seen('maps', j, cen)
    mon.sample(Nbeam=Nb, centering=cen, indices=idx)


def apply_(r, mon, case):
    wf, n, lam, D, dx = begin(r)
    hi = 30 if case['i'] % 2 else 240
    idx = r.integers(1, hi, int(r.integers(1, 5)))
    val = r.normal(size=len(idx))*lam*0.1
    custom = r.random() < 0.5
    fn = falco.zern.propcustom_zernikes if custom else proper.prop_zernikes
    kw = {}
    R = D/2
    if r.random() < 0.4:
        R = float(r.uniform(0.8, 1.5)*D/2)
        kw['RADIUS'] = R
    cen = 0.0
    if custom and r.random() < 0.6:
        kw['CENTERING'] = str(r.choice(['pixel', 'interpixel']))
        cen = 0.5 if kw['CENTERING'] == 'interpixel' else 0.0
    E0 = r.normal(size=(n, n)) + 1j*r.normal(size=(n, n))
    wf.wfarr = E0.copy()
    mode = ['phase', 'amp', 'none'][int(r.integers(3))]
    if mode == 'amp':
        kw['AMPLITUDE'] = True
    elif mode == 'none':
        kw['NO_APPLY'] = True
    ok, m = mon.runs(lambda: fn(wf, idx, val, **kw), 'apply-run', 'Zernike aberrations')
    if not ok:
        return
    rr, tt = polar(n, dx/R, cen)
    ref = sum(v*rz.zern(int(j), rr, tt) for j, v in zip(idx, val))
    tol = 1e-10*sum(abs(v)*rz.scale(int(j), rr) for j, v in zip(idx, val)) + 1e-12*lam
    ins = rr <= 1.0
    mon.check(np.all(np.abs(m-ref)[ins] <= tol[ins]), 'apply-map', 'the aberration map is not the requested sum of polynomials',
              indices=idx, kw=str(kw), worst=float(np.max(np.abs(m-ref)[ins])), lam=lam)
    mm = np.fft.ifftshift(m)
    want = E0 if mode == 'none' else E0*mm if mode == 'amp' else E0*np.exp(2j*np.pi/lam*mm)
    mon.close(wf.wfarr, want, 'apply-wavefront', 'the wavefront did not receive the aberration (%s)' % mode, rtol=1e-9, mode=mode)
    mon.seen('apply', mode, custom, cen, 'RADIUS' in kw, int(max(idx)) > 22)


def obscured(r, mon, case):
    wf, n, lam, D, dx = begin(r)
    eps = float(r.uniform(0.05, 0.7))
    idx = r.permutation(np.arange(1, 23))[:int(r.integers(1, 6))] if case['i'] % 3 else np.arange(1, 23)
    val = r.normal(size=len(idx))
    rr, tt = polar(n, dx/(D/2))
    ins = (rr <= 1) & (rr >= eps)
    out = {}
    for nm, fn in (('custom', falco.zern.propcustom_zernikes), ('proper', proper.prop_zernikes)):
        ok, m = mon.runs(lambda: fn(wf, idx, val, eps=eps, NO_APPLY=True), 'obscured-run', nm)
        if ok:
            ref = sum(v*rz.annular(int(j), eps, rr, tt) for j, v in zip(idx, val))
            mon.close(m[ins], ref[ins], 'obscured-map', 'obscured polynomials are not orthonormal over the annulus (%s)' % nm,
                      rtol=1e-7, indices=idx, eps=eps)
            for j in idx:
                mon.seen('obscured', int(j), nm)
    for fn in (falco.zern.propcustom_zernikes, proper.prop_zernikes):
        mon.raises(ValueError, lambda: fn(wf, np.array([3, 23+int(r.integers(9))]), np.array([1., 1.]), eps=eps, NO_APPLY=True),
                   'obscured-limit', 'an obscured polynomial beyond 22 is refused')
    del out


def text(r, mon, case):
    maxz = int(r.integers(2, 60)) if case['i'] % 2 else int(r.integers(250, 600))
    ok, zl = mon.runs(lambda: proper.prop_noll_zernikes(maxz), 'text-run', 'equations of %d polynomials' % maxz)
    if not ok:
        return
    mon.check(len(zl) == maxz+1, 'text-count', 'wrong number of equations')
    pts_r = r.uniform(0, 1, 12)
    pts_t = r.uniform(-np.pi, np.pi, 12)
    js = sorted(set([1, 2, maxz] + [int(v) for v in r.integers(1, maxz+1, 12)]))
    env = dict(math=math, sqrt=np.sqrt, cos=np.cos, sin=np.sin, np=np)
    for j in js:
        s = zl[j]
        s = s.decode() if isinstance(s, bytes) else str(s)
        try:
            v = eval(s, env, dict(r=pts_r, t=pts_t)) + 0*pts_r
        except Exception as e:
            mon.check(False, 'text-valid', 'equation of polynomial %d cannot be evaluated: %r' % (j, e))
            continue
        mon.check(True, 'text-valid')
        tol = 1e-10*rz.scale(j, pts_r) + 1e-12
        mon.check(np.all(np.abs(v - rz.zern(j, pts_r, pts_t)) <= tol), 'text-value',
                  'equation of a Zernike polynomial is wrong', j=j)
        mon.seen('text', j)


def field(r, ny, nx, xc, yc, rad, nz, eps):
    x = (np.arange(nx)-xc)/rad
    y = (np.arange(ny)-yc)/rad
    rr = np.hypot(x[None, :], y[:, None])
    tt = np.arctan2(y[:, None], x[None, :])
    c = r.normal(size=nz)
    f = rz.annular if eps else None
    W = sum(c[j-1]*(rz.annular(j, eps, rr, tt) if f else rz.zern(j, rr, tt)) for j in range(1, nz+1))
    return W, c, rr, tt


def fit(r, mon, case, eps=0.0):
    square = r.random() < 0.4
    ny = int(r.integers(50, 80))
    nx = ny if square else int(r.integers(50, 80))
    kw = {}
    xc, yc = nx//2, ny//2
    if r.random() < 0.6:
        xc, yc = float(r.uniform(0.4, 0.6)*nx), float(r.uniform(0.4, 0.6)*ny)
        if r.random() < 0.5:
            xc, yc = round(xc), round(yc)
        kw.update(XC=xc, YC=yc)
    rad = float(r.uniform(0.25, 0.39)*min(nx, ny))
    nz = int(r.integers(1, 23)) if eps or r.random() < 0.6 else int(r.integers(23, 45))
    if eps:
        kw['OBSCURATION_RATIO'] = eps
    W, c, rr, tt = field(r, ny, nx, xc, yc, rad, nz, eps)
    pupil = ((rr < 1) & (rr >= eps)).astype(float)
    pupil[r.random(pupil.shape) < 0.15] = 0     # bad pixels
    if not np.sum(pupil) > 4*nz:
        return
    Wbad = np.where((pupil > 0) & (rr < 1), W, r.normal(size=W.shape)*50)   # garbage outside the valid region
    W0, p0 = Wbad.copy(), pupil.copy()
    ret = r.random() < 0.5
    if ret:
        kw['FIT'] = True
    ok, o = mon.runs(lambda: proper.prop_fit_zernikes(Wbad, pupil, rad, nz, **kw), 'fit-run', 'Zernike fit %s' % kw)
    if not ok:
        return
    z = o[0] if ret else o
    mon.close(z, c, 'fit-coefficients', 'fitting a sum of Zernikes does not recover its coefficients',
              atol=1e-6*max(1, float(np.max(np.abs(c)))), rtol=0, nz=nz, kw=str(kw), shape=(ny, nx))
    if ret:
        ins = rr <= 1.3
        mon.close(o[1][ins] if o[1].shape == W.shape else o[1], W[ins], 'fit-map', 'the fitted map is not the sum of the fitted polynomials',
                  rtol=1e-5, scale=float(np.max(np.abs(W[ins]))))
    mon.check(np.array_equal(W0, Wbad) and np.array_equal(p0, pupil), 'fit-input', 'the fit changed its input')
    # least squares: a residual outside the span leaves a residual orthogonal to the polynomials
    G = r.normal(size=W.shape)
    kw.pop('FIT', None)
    z2 = proper.prop_fit_zernikes(G, pupil, rad, nz, **kw)
    w = (pupil > 0) & (rr < 1)
    B = np.stack([(rz.annular(j, eps, rr[w], tt[w]) if eps else rz.zern(j, rr[w], tt[w])) for j in range(1, nz+1)], 1)
    mon.close(B.T @ (G[w] - B @ z2), np.zeros(nz), 'fit-lsq', 'the fit is not the least-squares solution over the valid points',
              atol=1e-6*float(np.linalg.norm(G[w])*np.max(np.linalg.norm(B, axis=0))))
    mon.seen('fit', bool(eps), square, 'XC' in kw, nz)
    mon.sample(kind='fit', nz=nz, kw=str(kw), shape=(ny, nx))


def fitobs(r, mon, case):
    fit(r, mon, case, eps=float(r.uniform(0.1, 0.6)))


def hexa(r, mon, case):
    n = 2*int(r.integers(40, 75))
    dx = float(10**r.uniform(-3, -1))
    rad = float(r.uniform(0.25, 0.45)*n*dx)
    js = [int(v) for v in r.permutation(np.arange(1, 23))[:8]]
    xh, yh = (float(v) for v in r.uniform(-0.1, 0.1, 2)*n*dx) if r.random() < 0.7 else (0.0, 0.0)
    if r.random() < 0.3:
        xh += float(r.choice([-1, 1])*0.35*n*dx)    # clipped by the edge of the array
    kw = {}
    ang = 0.0
    if r.random() < 0.5:
        ang = float(r.uniform(-180, 180))
        kw['ROTATION'] = ang
    x = (np.arange(n) - n//2)*dx
    X, Y = np.meshgrid(x-xh, x-yh)
    rr = np.hypot(X, Y)/rad
    ta = np.arctan2(Y, X)
    tt = ta - math.radians(ang)
    U, V = rr*np.cos(tt), rr*np.sin(tt)
    h = math.sqrt(3)/2
    ins = (np.abs(V) <= h) & (np.abs(U)*h + np.abs(V)/2 <= h)
    if not ins.any():
        return
    maps_ = {}
    for j in js:
        ok, m = mon.runs(lambda: proper.prop_hex_zernikes([j], [1.0], n, dx, rad, xh, yh, **kw), 'hex-run', 'hexagonal Zernike %d' % j)
        if not ok:
            return
        maps_[j] = m
        ref = rz.hexzern(j, rr[ins], tt[ins])
        if j == 18:   # the published polynomial (which PROPER documents) is normalised but not orthogonal to Z10
            v = math.sqrt(np.mean(m[ins]**2))
            mon.check(abs(v-1) < 0.06 or abs(xh) > 0.2*n*dx, 'hex-rms', 'a hexagonal Zernike is not of unit rms', j=j, rms=v)
            w = np.abs(np.cos(3*tt)) > 0.3
            q = (m/np.cos(3*tt))[w & ins]
            B = np.stack([rr[w & ins]**3, rr[w & ins]**5], 1)
            res = B @ np.linalg.lstsq(B, q, rcond=None)[0] - q
            mon.check(np.max(np.abs(res)) < 1e-6*np.max(np.abs(q)), 'hex-shape', 'a hexagonal Zernike has the wrong symmetry', j=j)
            mon.seen('hex', j)
            continue
        tol = 0.025
        d = math.sqrt(np.mean((m[ins]-ref)**2))
        mon.check(d <= tol, 'hex-map', 'a hexagonal Zernike is not the polynomial orthonormal over the hexagon', j=j, rms=d, angle=ang)
        mon.seen('hex', j, bool(ang), abs(xh) > 0.2*n*dx)
    c = r.normal(size=len(js))
    m = proper.prop_hex_zernikes(np.array(js), c, n, dx, rad, xh, yh, **kw)
    mon.close(m[ins], sum(cc*maps_[j] for cc, j in zip(c, js))[ins], 'hex-sum', 'hexagonal Zernikes do not add up', rtol=1e-9)


def segments(r, mon, case):
    lam = 1e-6
    n = 2*int(r.integers(80, 128))
    D = 1.0
    wf = proper.prop_begin(D, lam, n, 0.8)
    dx = D/0.8/n
    rings = int(r.integers(0, 3))
    rad = 0.5*float(r.uniform(0.7, 0.95))/(1 + 1.75*rings)
    sep = rad*math.sqrt(3) + float(r.uniform(3, 5))*dx
    nseg = 3*rings*(rings+1)+1
    kw = {}
    ang = 0.0
    if r.random() < 0.6:
        ang = float(r.uniform(-90, 90))
        kw['ROTATION'] = ang
    xc = yc = 0.0
    if r.random() < 0.5:
        xc, yc = (float(v) for v in r.uniform(-0.05, 0.05, 2))
        kw.update(XCENTER=xc, YCENTER=yc)
    omit = []
    if r.random() < 0.5 and nseg > 1:
        omit = sorted(int(v) for v in r.permutation(nseg)[:int(r.integers(1, min(4, nseg)))])
        kw['OMIT'] = omit
    dark = r.random() < 0.3
    if dark:
        kw['DARKCENTER'] = True
    noapply = r.random() < 0.3
    if noapply:
        kw['NO_APPLY'] = True
    E0 = r.normal(size=(n, n)) + 1j*r.normal(size=(n, n))
    wf.wfarr = E0.copy()
    zv = np.zeros((22, nseg))
    use = sorted(int(v) for v in r.permutation([v for v in range(22) if v != 17])[:3])
    zv[use] = r.normal(size=(3, nseg))*30e-9
    phase = r.random() < 0.8
    args = (zv,) if phase else ()
    ok, o = mon.runs(lambda: proper.prop_hex_wavefront(wf, rings, rad, sep, *args, **kw), 'segments-run', 'segmented aperture %s' % kw)
    if not ok:
        return
    ap, ph = o if phase else (o, 0*E0.real)
    # where each hexagon of the honeycomb has to be
    a = math.radians(ang)
    x = (np.arange(n) - n//2)*dx
    X, Y = np.meshgrid(x-xc, x-yc)
    U = X*math.cos(a) + Y*math.sin(a)
    V = -X*math.sin(a) + Y*math.cos(a)
    h = math.sqrt(3)/2*rad
    cen = []
    for p in range(-rings, rings+1):
        for q in range(-rings, rings+1):
            if abs(p+q) <= rings:
                cen.append((p*sep*math.sqrt(3)/2, (q + p/2)*sep))
    lit = []
    area = []
    inn = {}
    for s, (cx, cy) in enumerate(cen):
        du, dv = np.abs(U-cx), np.abs(V-cy)
        d = np.maximum(dv-h, du*math.sqrt(3)/2 + dv/2 - h)   # signed distance to the hexagon's nearest side
        inside = d < -1.0*dx
        inn[s] = (d < 0, inside, d < 1.0*dx)
        v = ap[inside]
        lit.append(float(np.mean(v)))
        area.append(float(np.sum(ap[d < 1.0*dx])*dx*dx))
    outside = np.ones((n, n), bool)
    for s in inn:
        outside &= ~inn[s][2]
    mon.check(np.all(np.abs(ap[outside]) < 1e-12), 'segments-gap', 'light between or outside the segments')
    mon.check(all(abs(v) < 1e-9 or abs(v-1) < 1e-9 for v in lit), 'segments-full', 'a segment is neither fully transmitting nor dark', lit=lit)
    on = [s for s, v in enumerate(lit) if v > 0.5]
    center = cen.index((0.0, 0.0))
    # segment numbers are not fixed by the geometry, so count them; the center is known
    dc_in_omit = 0
    n_on = nseg - len(omit)
    if dark:
        mon.check(center not in on, 'segments-darkcenter', 'the dark center transmits')
    for s in on:
        mon.close(area[s], 1.5*math.sqrt(3)*rad**2, 'segments-area', 'a segment has the wrong transmitting area', rtol=0.02)
    if dark:
        mon.check(len(on) in (n_on, n_on-1), 'segments-count', 'wrong number of segments', on=len(on), want=n_on)
    else:
        mon.check(len(on) == n_on, 'segments-count', 'wrong number of segments', on=len(on), want=n_on)
    if phase:
        # each lit segment shows its own combination of polynomials
        used = set()
        for s in on:
            cx, cy = cen[s]
            rr = np.hypot(U-cx, V-cy)[inn[s][1]]/rad
            tt = np.arctan2(V-cy, U-cx)[inn[s][1]]
            B = np.stack([rz.hexzern(j+1, rr, tt) for j in use], 1)
            got = ph[inn[s][1]]
            fits = [math.sqrt(np.mean((B @ zv[use, q] - got)**2)) for q in range(nseg)]
            q = int(np.argmin(fits))
            mon.check(fits[q] <= 0.06*float(np.linalg.norm(zv[use, q])) + 1e-12, 'segments-phase',
                      "a segment's phase is not the combination requested for any segment", rms=fits[q])
            mon.check(q not in used and q not in omit, 'segments-own', 'two segments share coefficients or an omitted one is drawn', q=q)
            used.add(q)
        out2 = np.ones((n, n), bool)
        for s in on:
            out2 &= ~inn[s][2]
        if dark:
            out2 &= ~inn[center][2]
        mon.check(np.all(ph[out2] == 0), 'segments-phase-outside', 'phase outside the segments')
    want = E0 if noapply else E0*np.fft.ifftshift(ap*np.exp(2j*np.pi/lam*ph))
    mon.close(wf.wfarr, want, 'segments-apply', 'the wavefront did not receive the aperture and its phase', rtol=1e-9)
    mon.seen('segments', rings, bool(omit), dark, phase, bool(ang))
    mon.count('segments_seen', len(on))
