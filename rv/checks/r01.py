"""R01: physical-optics propagation.  Trains of lenses and distances are applied
to sums of displaced, tilted Gaussians whose exact Fresnel propagation is known
in closed form; the pilot beam and every reported quantity are tracked
independently with the ABCD law."""
import numpy as np

from rv.core import rng_of, Skip

RULE = ('every lens and propagation conserves energy, is linear in the field and reversible, gives the field that '
        'the closed-form Fresnel (Collins) integral of the same Gaussian components gives, and the reported '
        'sampling, beam radius, position, focus distance, focal ratio and reference radius follow the ABCD law')
NPROC = 8


class Pilot:
    """Gaussian pilot beam, tracked through its complex parameter."""

    def __init__(self, diam, lam, n, frac):
        self.n, self.lam, self.diam = n, lam, diam
        self.z = 0.0
        self.q = 1j*np.pi*(diam/2)**2/lam      # q = (z - z_w0) + i zR
        self.dx = diam/(n*frac)
        self.planar = True
        self.fratio = None

    s = property(lambda o: o.q.real)
    zr = property(lambda o: o.q.imag)
    zw0 = property(lambda o: o.z - o.q.real)

    @property
    def w(self):
        w0 = np.sqrt(self.lam*self.zr/np.pi)
        return w0*np.sqrt(1 + (self.s/self.zr)**2)

    def margin(self, s):
        return abs(abs(s)/self.zr - 1)

    def lens(self, f):
        w = self.w
        self.q = 1/(1/self.q - 1/f)
        if self.margin(self.s) < 1e-6:
            raise Skip()
        self.planar = abs(self.s) < self.zr
        self.fratio = abs(self.s)/(2*w)
        self.fr_tol = 1e-7*self.zr/(2*w)

    def dxwaist(self):
        return self.dx if self.planar else self.lam*abs(self.s)/(self.n*self.dx)

    def move(self, dz, to_plane=False):
        dxw = self.dxwaist()
        s2 = self.s + dz
        if self.margin(s2) < 1e-6:
            raise Skip()
        self.z += dz
        self.q += dz
        self.planar = to_plane or abs(s2) < self.zr
        self.dx = dxw if self.planar else self.lam*abs(s2)/(self.n*dxw)
        return dxw


class Beam:
    """sum of A exp(-a r^2 + bx x + by y + c)"""

    def __init__(self, comps, lam):
        self.c = [tuple(complex(v) for v in p) for p in comps]  # a, bx, by, c
        self.k = 2*np.pi/lam

    def lens(self, f):
        self.c = [(a + 1j*self.k/(2*f), bx, by, c) for a, bx, by, c in self.c]

    def moved(self, dz):
        o = Beam([], 1.0)
        o.k = self.k
        if dz == 0:
            o.c = list(self.c)
            return o
        q = 1j*self.k/(2*dz)
        o.c = []
        for a, bx, by, c in self.c:
            d = a - q
            o.c.append((-q*a/d, -q*bx/d, -q*by/d, c + (bx*bx + by*by)/(4*d) + np.log(-q/d)))
        return o

    def fits(self, n, dx, R):
        """amplitude at the window's edge and at the band's edge, after removing the reference curvature"""
        half = (n//2)*dx
        nyq = np.pi/dx
        for a, bx, by, c in self.c:
            a2 = a + (1j*self.k/(2*R) if R else 0)
            if a2.real <= 0:
                return False
            for b in (bx, by):
                x0 = b.real/(2*a2.real)
                k0 = (b - 2*a2*x0).imag      # local frequency at the centre
                if a2.real*(half - abs(x0))**2 < 16 or half < abs(x0):
                    return False
                s = abs(a2)**2/a2.real       # |FT|^2 ~ exp(-dk^2 / (2 s)), |FT| ~ exp(-dk^2/(4 s))
                if nyq < abs(k0) or (nyq - abs(k0))**2/(4*s) < 16:
                    return False
        return True

    def eval(self, n, dx, R):
        x = (np.arange(n) - n//2)*dx
        out = np.zeros((n, n), complex)
        for a, bx, by, c in self.c:
            a2 = a + (1j*self.k/(2*R) if R else 0)
            ex = np.exp(-a2*x**2 + bx*x + c/2)
            ey = np.exp(-a2*x**2 + by*x + c/2)
            out += ey[:, None]*ex[None, :]
        return out


def cases(tier, seed):
    n1, n2, n3, n4 = (56, 16, 12, 8) if tier == 'quick' else (900, 200, 100, 60)
    out = [dict(kind='train', i=i, seed=seed) for i in range(n1)]
    out += [dict(kind='algebra', i=i, seed=seed) for i in range(n2)]
    out += [dict(kind='field', i=i, seed=seed) for i in range(n3)]
    out += [dict(kind='occulter', i=i, seed=seed) for i in range(n4)]
    return out


def start(case, r, n=None):
    import falco.proper as proper
    proper.print_it = False
    proper.verbose = False
    proper.do_table = False
    proper.phase_offset = False
    n = n or int(r.choice([128, 192, 256]))
    lam = float(r.uniform(0.4e-6, 1.6e-6))
    diam = float(10**r.uniform(-3, 0.5))
    frac = float(r.uniform(0.22, 0.34))
    wf = proper.prop_begin(diam, lam, n, beam_diam_fraction=frac)
    return proper, wf, Pilot(diam, lam, n, frac), n, lam, diam, frac


def components(r, diam, n_comp):
    w0 = diam/2
    out = []
    for _ in range(n_comp):
        w = w0*r.uniform(0.55, 0.9)
        x0, y0 = r.uniform(-0.35, 0.35, 2)*w0
        kx, ky = r.uniform(-2, 2, 2)/w0
        amp = r.uniform(0.4, 1)
        ph = r.uniform(0, 2*np.pi)
        a = 1/w**2
        out.append((a, 2*a*x0 + 1j*kx, 2*a*y0 + 1j*ky, np.log(amp) + 1j*ph - a*(x0**2 + y0**2)))
    return out


def step(r, p):
    """a random next element that keeps the train in sane geometry"""
    u = r.random()
    if u < 0.40:
        base = p.zr
        if p.planar:
            f = base*10**r.uniform(-4, 0.3)*(1 if r.random() < 0.8 else -1)
        else:
            f = abs(p.s)*r.choice([r.uniform(0.3, 3), 1.0, -r.uniform(0.3, 3)])
        w0 = np.sqrt(p.lam*(1/(1/p.q - 1/f)).imag/np.pi)
        if abs(f) > 4*p.w and w0 > 3*p.lam:
            return 'lens', float(f)
    if u < 0.65 and abs(p.s) > 0:
        return 'move', float(-p.s)                        # to the focus
    if u < 0.8:
        return 'move', float(-p.s*r.uniform(0.2, 2.2))    # before or past it
    return 'move', float(p.zr*r.choice([r.uniform(-0.9, 0.9), r.uniform(1.1, 4), -r.uniform(1.1, 4)]))


def same_upto_phase(a, b):
    ip = np.vdot(b, a)
    return a*np.exp(-1j*np.angle(ip)) if ip != 0 else a


def state(mon, proper, wf, p, what):
    tol = dict(rtol=1e-7)
    mon.close(proper.prop_get_sampling(wf), p.dx, 'sampling', what, **tol)
    mon.close(proper.prop_get_beamradius(wf), p.w, 'beam-radius', what, rtol=1e-6)
    # cancellation in z - z_w0: judge against the distances involved
    sc = max(abs(p.s), p.zr, abs(p.z))
    mon.close(proper.prop_get_distancetofocus(wf), -p.s, 'focus-distance', what, scale=sc, **tol)
    mon.close(proper.prop_get_z(wf), p.z, 'position', what, atol=1e-9*sc, **tol)
    if not p.planar:
        mon.close(proper.prop_get_refradius(wf), p.s, 'reference-radius', what, scale=sc, **tol)
    else:
        mon.close(proper.prop_get_refradius(wf), 0.0, 'reference-radius', what, rtol=0)
    mon.check(proper.prop_get_gridsize(wf) == p.n, 'gridsize', what)
    mon.close(proper.prop_get_wavelength(wf), p.lam, 'wavelength', what, rtol=0)
    if p.fratio is not None:
        mon.close(proper.prop_get_fratio(wf), p.fratio, 'focal-ratio', what, rtol=1e-7, atol=p.fr_tol)
        fr = proper.prop_get_fratio(wf)
        if p.fratio > 1e-6:
            mon.close(proper.prop_get_nyquistsampling(wf), fr*p.lam/2, 'nyquist', what, rtol=1e-7)
            mon.close(proper.prop_get_nyquistsampling(wf, 2*p.lam), fr*p.lam, 'nyquist', what, rtol=1e-7)
            fl = fr*p.diam
            mon.close(proper.prop_get_sampling_radians(wf), p.dx/fl, 'sampling-rad', what, rtol=1e-7)
            mon.close(proper.prop_get_sampling_arcsec(wf), p.dx/fl*180*3600/np.pi, 'sampling-arcsec', what, rtol=1e-7)


def run_train(case, mon):
    r = rng_of(case)
    proper, wf, p, n, lam, diam, frac = start(case, r)
    beam = Beam(components(r, diam, int(r.integers(1, 4))), lam)
    lin = bool(r.random() < 0.3)
    e0 = beam.eval(n, p.dx, 0)
    proper.prop_multiply(wf, e0)
    amp0 = p.dx
    tot = float(np.sum(np.abs(e0)**2))
    hist = []
    ok = beam.fits(n, p.dx, 0)
    for j in range(int(r.integers(2, 9))):
        what_to, v = step(r, p)
        before = p.dx
        if what_to == 'lens':
            p.lens(v)
            beam.lens(v)
            proper.prop_lens(wf, v)
            ok = ok and beam.fits(n, p.dx, 0 if p.planar else p.s)
        else:
            if v == 0:
                continue
            was_planar, zero = p.planar, p.s
            wb = beam.moved(-zero)
            dxw = p.dxwaist()
            if not (was_planar and abs(p.s + v) < p.zr):
                ok = ok and wb.fits(n, dxw, 0)
            beam = beam.moved(v)
            plane = bool(r.random() < 0.2)
            p.move(v, plane)
            if plane:
                proper.prop_propagate(wf, v, TO_PLANE=True)
                what_to = 'plane'
            else:
                proper.prop_propagate(wf, v)
            ok = ok and beam.fits(n, p.dx, 0 if p.planar else p.s)
        if not (1e-8 < p.dx*n < 1e6):
            break
        hist.append((what_to, 'in' if p.planar else 'out'))
        what = 'after %s step %d (%s)' % (what_to, j, hist[-1][1])
        state(mon, proper, wf, p, what)
        got = proper.prop_get_wavefront(wf)
        mon.close(float(np.sum(np.abs(got)**2)), tot, 'energy', what, rtol=1e-9)
        if ok:
            ref = beam.eval(n, p.dx, 0 if p.planar else p.s)*(p.dx/amp0)
            sc = float(np.max(np.abs(ref)))
            mon.close(same_upto_phase(got, ref), ref, 'fresnel-field', what, rtol=3e-5, scale=sc, hist=hist)
            mon.count('fields compared with the closed form')
            mon.seen('train', tuple(hist))
        else:
            mon.count('fields outside the sampled band')
    mon.close(proper.prop_get_amplitude(wf), np.abs(proper.prop_get_wavefront(wf)), 'amplitude', rtol=1e-12)
    mon.close(np.exp(1j*proper.prop_get_phase(wf))*proper.prop_get_amplitude(wf), proper.prop_get_wavefront(wf),
              'phase', rtol=1e-10)
    final = proper.prop_get_wavefront(wf).copy()
    noabs = bool(r.random() < 0.5)
    ext = int(r.choice([0, 16, 32, 50]))
    kw = {}
    if noabs:
        kw['NOABS'] = True
    if ext:
        kw['EXTRACT'] = ext
    ok, res = mon.runs(lambda: proper.prop_end(wf, **kw), 'end', str(kw))
    if ok:
        out, dx = res
        exp = final if noabs else np.abs(final)**2
        if ext:
            exp = exp[n//2-ext//2:n//2-ext//2+ext, n//2-ext//2:n//2-ext//2+ext]
        mon.close(out, exp, 'end-result', str(kw), rtol=1e-12)
        mon.close(dx, p.dx, 'end-sampling', rtol=1e-8)
    mon.sample(hist=hist, diam=diam, lam=lam)


def random_field(r, n):
    x = (np.arange(n) - n//2)/n
    xx, yy = np.meshgrid(x, x)
    f = np.zeros((n, n), complex)
    for _ in range(4):
        x0, y0 = r.uniform(-0.2, 0.2, 2)
        w = r.uniform(0.03, 0.2)
        f += (r.normal() + 1j*r.normal())*np.exp(-((xx-x0)**2 + (yy-y0)**2)/w**2)
    f += (np.hypot(xx, yy) < 0.15)*np.exp(2j*np.pi*r.normal())
    return f + 0.01*(r.normal(size=(n, n)) + 1j*r.normal(size=(n, n)))


def run_algebra(case, mon):
    """linearity, additivity, reversibility for arbitrary fields"""
    r = rng_of(case)
    import falco.proper as proper
    n = int(r.choice([32, 64, 96]))
    proper.print_it = proper.verbose = proper.do_table = False
    lam = float(r.uniform(0.4e-6, 1.6e-6))
    diam = float(10**r.uniform(-3, 0.5))
    frac = float(r.uniform(0.2, 0.7))
    p = Pilot(diam, lam, n, frac)
    train = []
    for _ in range(int(r.integers(2, 8))):
        k, v = step(r, p)
        if v == 0:
            continue
        if k == 'lens':
            p.lens(v)
        else:
            p.move(v)
        if not (1e-9 < p.dx*n < 1e7):
            break
        train.append((k, v))

    def go(field, back=False):
        wf = proper.prop_begin(diam, lam, n, frac)
        proper.prop_multiply(wf, field)
        for k, v in train:
            (proper.prop_lens if k == 'lens' else proper.prop_propagate)(wf, v)
        mid = proper.prop_get_wavefront(wf).copy()
        if back:
            for k, v in train[::-1]:
                (proper.prop_lens if k == 'lens' else proper.prop_propagate)(wf, -v)
        return mid, wf

    f, g = random_field(r, n), random_field(r, n)
    a, b = complex(*r.normal(size=2)), complex(*r.normal(size=2))
    F, wf = go(f, back=True)
    G, _ = go(g)
    H, _ = go(a*f + b*g)
    sc = max(np.max(np.abs(H)), abs(a)*np.max(np.abs(F)))
    mon.close(H, a*F + b*G, 'linear', str(train), rtol=1e-9, scale=sc)
    mon.close(np.vdot(F, G), np.vdot(f, g), 'inner-product', str(train), rtol=1e-9,
              scale=np.linalg.norm(f)*np.linalg.norm(g))
    # how well the way back is conditioned in double precision, from the ABCD law alone
    for k, v in train[::-1]:
        try:
            p.lens(-v) if k == 'lens' else p.move(-v)
        except Skip:
            return
    err = max(abs(p.s)/p.zr, abs(p.w/(diam/2) - 1), abs(p.dx*n*frac/diam - 1), 1e-10)
    if err > 1e-7:
        mon.count('ill-conditioned return trips')
        return
    # backwards, the beam must come back to where it started; its curvature reference is planar there
    p0 = Pilot(diam, lam, n, frac)
    mon.close(proper.prop_get_distancetofocus(wf), 0.0, 'reversible-waist', str(train), scale=p0.zr, rtol=1e3*err)
    mon.close(proper.prop_get_beamradius(wf), diam/2, 'reversible-radius', str(train), rtol=1e3*err)
    # the pilot at the start sits exactly at its waist: same reference, same grid
    mon.close(proper.prop_get_sampling(wf), diam/(n*frac), 'reversible-sampling', str(train), rtol=1e3*err)
    back = proper.prop_get_wavefront(wf)
    mon.close(same_upto_phase(back, f), f, 'reversible-field', str(train), rtol=1e-6 + 1e4*err)
    mon.seen('algebra', n, tuple(k for k, _ in train))


def run_field(case, mon):
    """direct operations on the field"""
    r = rng_of(case)
    import falco.proper as proper
    proper.print_it = proper.verbose = proper.do_table = False
    n = int(r.choice([32, 50, 64]))
    lam = float(r.uniform(0.4e-6, 1.6e-6))
    diam = float(r.uniform(0.01, 2))
    frac = float(r.uniform(0.2, 0.8))
    wf = proper.prop_begin(diam, lam, n, frac)
    mon.close(proper.prop_get_wavefront(wf), np.ones((n, n), complex), 'unit-start', rtol=0)
    mon.close(proper.prop_get_sampling(wf), diam/(n*frac), 'sampling', rtol=1e-12)
    cur = np.ones((n, n), complex)
    x = (np.arange(n) - n//2)*diam/(n*frac)
    rr = np.hypot(*np.meshgrid(x, x))
    mon.close(proper.prop_radius(wf), rr, 'radius', rtol=1e-12)
    mon.close(proper.prop_radius(wf, NORM=True), rr/(diam/2), 'radius-norm', rtol=1e-12)
    ops = []
    for _ in range(6):
        op = str(r.choice(['mul', 'muls', 'div', 'divs', 'ph', 'phs', 'add', 'adds', 'entr', 'circ', 'obsc']))
        ops.append(op)
        if op == 'mul':
            m = r.normal(size=(n, n)) + (1j*r.normal(size=(n, n)) if r.random() < 0.5 else 0)
            proper.prop_multiply(wf, m)
            cur = cur*m
        elif op == 'muls':
            m = r.choice([float(r.normal()), 2, np.float64(1.5)])
            proper.prop_multiply(wf, m)
            cur = cur*m
        elif op == 'div':
            m = r.uniform(0.5, 2, size=(n, n))
            proper.prop_divide(wf, m)
            cur = cur/m
        elif op == 'divs':
            proper.prop_divide(wf, 2.5)
            cur = cur/2.5
        elif op == 'ph':
            m = r.normal(size=(n, n))*lam
            m0 = m.copy()
            proper.prop_add_phase(wf, m)
            mon.equal(m, m0, 'input-changed', op)
            cur = cur*np.exp(2j*np.pi*m/lam)
        elif op == 'phs':
            proper.prop_add_phase(wf, 0.3*lam)
            cur = cur*np.exp(2j*np.pi*0.3)
        elif op == 'add':
            m = r.normal(size=(n, n)) + 1j*r.normal(size=(n, n))
            proper.prop_add_wavefront(wf, m)
            cur = cur + m
        elif op == 'adds':
            proper.prop_add_wavefront(wf, 0.25)
            cur = cur + 0.25
        elif op == 'entr' and np.any(cur):
            proper.prop_define_entrance(wf)
            cur = cur/np.sqrt(np.sum(np.abs(cur)**2))
        elif op in ('circ', 'obsc'):
            rad = diam/2*r.uniform(0.3, 0.9)
            xc, yc = r.uniform(-0.3, 0.3, 2)*diam/2
            norm = bool(r.random() < 0.5)
            fn = proper.prop_circular_aperture if op == 'circ' else proper.prop_circular_obscuration
            s = diam/2 if norm else 1.0
            before = proper.prop_get_wavefront(wf).copy()
            fn(wf, rad/s, xc/s, yc/s, NORM=norm)
            d = np.hypot(x[None, :] - xc, x[:, None] - yc)
            ins, outs = d < rad - 1.5*diam/(n*frac), d > rad + 1.5*diam/(n*frac)
            keep, drop = (ins, outs) if op == 'circ' else (outs, ins)
            got = proper.prop_get_wavefront(wf)
            mon.close(got[keep], before[keep], 'aperture-keeps', op, rtol=1e-12)
            mon.check(not np.any(got[drop]), 'aperture-blocks', op)
            cur = got.copy()
        mon.close(proper.prop_get_wavefront(wf), cur, 'field-op', op, rtol=1e-10)
    mon.close(proper.prop_get_amplitude(wf), np.abs(cur), 'amplitude', rtol=1e-10)
    mon.seen('field', tuple(ops))


def run_occulter(case, mon):
    """8th-order occulters at a focus"""
    r = rng_of(case)
    import falco.proper as proper
    proper.print_it = proper.verbose = proper.do_table = False
    n = 128
    lam, diam, frac = float(r.uniform(0.4e-6, 1e-6)), float(r.uniform(0.02, 0.2)), float(r.uniform(0.15, 0.4))
    fl = float(r.uniform(0.5, 3))
    wf = proper.prop_begin(diam, lam, n, frac)
    proper.prop_circular_aperture(wf, diam/2)
    proper.prop_lens(wf, fl)
    proper.prop_propagate(wf, fl)
    before = proper.prop_get_wavefront(wf).copy()
    c = proper.prop_get_sampling(wf)/(proper.prop_get_fratio(wf)*lam)      # lambda/D per pixel
    hw = float(r.uniform(3, 6))
    lo, hi = (0.0, 1.0) if r.random() < 0.5 else (float(r.uniform(0, 0.2)), float(r.uniform(0.6, 1)))
    kw, arg = {}, hw
    if r.random() < 0.5:
        kw['METERS'], arg = True, hw*proper.prop_get_fratio(wf)*lam
    shape = str(r.choice(['x', 'y', 'circ', 'ell']))
    x = (np.arange(n) - n//2)*c
    xx, yy = np.meshgrid(x, x)
    ratio = float(r.uniform(0.5, 2))
    if shape == 'y':
        kw['Y_AXIS'] = True
        rho = np.abs(yy)
    elif shape == 'circ':
        kw['CIRCULAR'] = True
        rho = np.hypot(xx, yy)
    elif shape == 'ell':
        kw['ELLIPTICAL'] = ratio
        rho = np.hypot(xx, yy/ratio)
    else:
        rho = np.abs(xx)
    m = proper.prop_8th_order_mask(wf, arg, lo, hi, **kw)
    got = proper.prop_get_wavefront(wf)
    mon.close(got, before*m, 'occulter-applied', shape, rtol=1e-12)
    T = (m**2 - lo)/(hi - lo)
    mon.check(T.min() > -1e-9 and T.max() < 1 + 1e-9, 'occulter-range', shape, lo=T.min(), hi=T.max())
    mon.close([T.min(), T.max()], [0.0, 1.0], 'occulter-range', shape, atol=1e-9, scale=1)
    # published band-limited mask (l=3, m=1): amplitude 2/3 - sinc^3(eps x/3) + (1/3) sinc(eps x)
    eps = 1.788/hw
    M = 2/3 - np.sinc(rho*eps/3)**3 + np.sinc(rho*eps)/3
    ref = M**2
    ref = (ref - ref.min())/(ref.max() - ref.min())
    mon.close(T, ref, 'occulter-profile', shape, atol=1e-9, rtol=0)
    near = np.abs(rho - hw) < 0.5*c
    if np.any(near):
        mon.check(abs(np.mean(T[near]) - 0.5) < 0.12, 'occulter-half-width', shape, got=np.mean(T[near]))
    mon.seen('occulter', shape, 'METERS' in kw, lo > 0)


def run_case(case, mon):
    globals()['run_' + case['kind']](case, mon)
