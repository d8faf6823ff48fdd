"""R03: error maps and image resampling.  Maps and images are sampled from smooth
closed-form functions, so what the library makes of them (read, shifted,
rotated, magnified, resampled, pixellated - with and without its compiled
interpolators) is compared with the function itself; random maps with a given
power spectrum are judged by the ensemble of their spectra."""
import math
import os
import subprocess
import sys
import types

import numpy as np

from rv.core import rng_of, REPO, SCRATCH

RULE = ('a map applied to the beam equals the function the file samples at the place, scale, rotation, units and '
        'type asked for; magnified, rotated and pixellated images equal the closed form; random maps have the '
        'requested statistics; the compiled and the Python interpolators agree')
NPROC = 8
LIBS = {}
ASSUMPTIONS = ['a C compiler (gcc) is present for the compiled interpolators']


def prepare(tier):
    """compile the three interpolators exactly as the library's own build step does, into scratch"""
    src = os.path.join(REPO, 'falco', 'proper')
    for key, f in (('conv', 'cubic_conv_c.c'), ('convt', 'cubic_conv_threaded_c.c'), ('szoom', 'prop_szoom_c.c')):
        so = os.path.join(SCRATCH, 'lib%s.so' % key)
        p = subprocess.run(['gcc', '-w', '-shared', '-fPIC', os.path.join(src, f), '-o', so, '-lm', '-lpthread'],
                           capture_output=True)
        LIBS[key] = so if p.returncode == 0 else None


def cases(tier, seed):
    k = dict(quick=(40, 24, 16, 16, 6, 8), thorough=(600, 300, 200, 200, 48, 80))[tier]
    out = []
    for kind, n in zip(('errormap', 'magnify', 'rotate', 'pixellate', 'psd', 'roundtrip'), k):
        out += [dict(kind=kind, i=i, seed=seed) for i in range(n)]
    return out


class Blobs:
    """sum of Gaussians"""

    def __init__(self, r, half, wmin, n=4, cplx=False):
        self.p = []
        for _ in range(n):
            a = r.uniform(0.3, 1)*(np.exp(2j*np.pi*r.random()) if cplx else r.choice([-1, 1]))
            self.p.append((a, r.uniform(-0.5, 0.5)*half, r.uniform(-0.5, 0.5)*half, r.uniform(1, 2)*wmin))

    def __call__(self, x, y):
        return sum(a*np.exp(-((x - x0)**2 + (y - y0)**2)/w**2) for a, x0, y0, w in self.p)

    def scale(self):
        return sum(abs(a) for a, *_ in self.p)


def use_c(proper, on):
    proper.use_cubic_conv = proper.use_cubic_conv_threaded = proper.use_szoom_c = bool(on)
    if on:
        proper.cubic_conv_lib, proper.cubic_conv_threaded_lib, proper.szoom_c_lib = \
            LIBS['conv'], LIBS['convt'], LIBS['szoom']


def lib():
    import falco.proper as proper
    proper.print_it = proper.verbose = proper.do_table = False
    return proper


def grids(shape, cx, cy, s):
    y, x = np.mgrid[:shape[0], :shape[1]]
    return (x - cx)*s, (y - cy)*s


def path(case, ext='fits'):
    return os.path.join(SCRATCH, 'r03_%s_%d_%d.%s' % (case['kind'], case['i'], os.getpid(), ext))


def run_errormap(case, mon):
    r = rng_of(case)
    P = lib()
    C = bool(r.random() < 0.4) and all(LIBS.values())
    n = int(r.choice([48, 64, 80]))
    diam, frac, lam = float(10**r.uniform(-2, 0.5)), float(r.uniform(0.3, 0.8)), float(r.uniform(0.4e-6, 1e-6))
    wf = P.prop_begin(diam, lam, n, frac)
    if r.random() < 0.3:
        fl = diam*20
        P.prop_lens(wf, fl)
        P.prop_propagate(wf, fl/2)
        P.prop_multiply(wf, 0.0)
        P.prop_add_wavefront(wf, 1.0)
    dx, rad = P.prop_get_sampling(wf), P.prop_get_beamradius(wf)
    s = dx*r.uniform(0.5, 2)
    shape = (int(r.integers(40, 90)), int(r.integers(40, 90))) if r.random() < 0.5 else (64, 64)
    big = max(s, dx)
    half = min(n*dx, min(shape)*s)/2
    f = Blobs(r, half, 5.5*big)
    off = r.random() < 0.4
    cx, cy = shape[1]//2, shape[0]//2
    kw = {}
    if off:
        cx, cy = float(r.uniform(0.35, 0.65)*shape[1]), float(r.uniform(0.35, 0.65)*shape[0])
        kw.update(XC_MAP=cx, YC_MAP=cy)
    xx, yy = grids(shape, cx, cy, s)
    typ = str(r.choice(['WAVEFRONT', 'MIRROR_SURFACE', 'AMPLITUDE']))
    kw[typ] = True
    unit = 1.0
    if typ == 'AMPLITUDE':
        amp = 1.0
        arr = 0.5 + 0.4*f(xx, yy)/f.scale()
        fun = lambda x, y: 0.5 + 0.4*f(x, y)/f.scale()
    else:
        u = str(r.choice(['', 'NM', 'MICRONS']))
        unit = {'': 1.0, 'NM': 1e-9, 'MICRONS': 1e-6}[u]
        if u:
            kw[u] = True
        amp = lam*0.15/f.scale()
        arr = f(xx, yy)*amp/unit
        fun = lambda x, y: f(x, y)*amp
    mult = 1.0
    if r.random() < 0.4:
        mult = float(r.uniform(0.3, 1.5))
        kw['MULTIPLY'] = mult
    # scale of the map: from the header, from the beam radius in the header, or given
    how = str(r.choice(['header', 'radpix', 'given', 'given-over-header']))
    wkw = {}
    if how == 'radpix':
        wkw['RADIUS_PIX'] = rad/s
    elif how == 'header':
        wkw['SAMPLING'] = s
    else:
        kw['SAMPLING'] = s
        wkw['SAMPLING'] = s*(1 if how == 'given' else 1.37)
    fn = path(case)
    P.prop_writemap(arr, fn, **wkw)
    xs = ys = 0.0
    if r.random() < 0.5:
        xs, ys = r.uniform(-3, 3, 2)*dx
    rot, mag = 0.0, 1.0
    if r.random() < 0.3:
        rot = float(r.choice([90, -90, 180, r.uniform(-180, 180)]))
        kw['ROTATEMAP'] = rot
    if r.random() < 0.25 and how != 'given' and how != 'given-over-header':
        mag = float(r.uniform(0.7, 1.5))
        kw['MAGNIFY'] = mag
    before = P.prop_get_wavefront(wf).copy()
    use_c(P, C)
    try:
        ok, dmap = mon.runs(lambda: P.prop_errormap(wf, fn, xs, ys, **kw), 'errormap-runs', str(sorted(kw)))
    finally:
        use_c(P, False)
        os.remove(fn)
    if not ok:
        return
    gx, gy = grids((n, n), n//2, n//2, dx)
    # trace back: magnify, then rotation, then shift
    u, v = gx/mag, gy/mag
    t = np.radians(rot)
    ru, rv = u*np.cos(t) + v*np.sin(t), -u*np.sin(t) + v*np.cos(t)
    mx, my = ru - xs, rv - ys
    ref = fun(mx, my)*mult
    inside = (mx/s + cx > 4) & (mx/s + cx < shape[1] - 5) & (my/s + cy > 4) & (my/s + cy < shape[0] - 5)
    if rot or mag != 1:
        inside &= (np.abs(ru) < (n//2 - 5)*dx) & (np.abs(rv) < (n//2 - 5)*dx)
    if mag != 1:
        inside &= (np.abs(u) < (n//2 - 8)*dx) & (np.abs(v) < (n//2 - 8)*dx)
    what = '%s %s C=%s rot %.0f mag %.2f shift (%.1f, %.1f) px' % (typ, how, C, rot, mag, xs/dx, ys/dx)
    mon.check(inside.sum() > 50, 'errormap-overlap', what)
    sc = mult*(1.0 if typ == 'AMPLITUDE' else lam*0.15)
    tol = (0.012 if C else 0.006)*(1 + (rot != 0) + 2.0*(mag != 1))
    mon.close(dmap[inside], ref[inside], 'errormap-map', what, rtol=tol, scale=sc)
    got = P.prop_get_wavefront(wf)
    if typ == 'AMPLITUDE':
        exp = before*dmap
    else:
        exp = before*np.exp(2j*np.pi*dmap/lam*(-2 if typ == 'MIRROR_SURFACE' else 1))
    mon.close(got, exp, 'errormap-applied', what, rtol=1e-9)
    mon.count('map pixels compared with the closed form', inside.sum())
    mon.seen('errormap', typ, how, C, rot != 0, mag != 1, xs != 0, off, 'MULTIPLY' in kw)
    for bad in (dict(AMPLITUDE=True, NM=True), dict(AMPLITUDE=True, MICRONS=True),
                dict(WAVEFRONT=True, NM=True, MICRONS=True)):
        mon.raises(SystemExit, lambda: P.prop_errormap(wf, fn, **bad), 'errormap-conflict')


def run_magnify(case, mon):
    r = rng_of(case)
    P = lib()
    C = bool(r.random() < 0.5) and all(LIBS.values())
    n = int(r.integers(40, 75))
    mag = float(10**r.uniform(-0.35, 0.4))
    cplx = bool(r.random() < 0.5)
    f = Blobs(r, n/2, 4.5*max(1, 1/mag), cplx=cplx)
    x, y = grids((n, n), n//2, n//2, 1.0)
    img = f(x, y)
    nout = int(r.choice([0, int(r.integers(20, 90))]))
    kw, div = {}, 1.0
    u = r.random()
    if u < 0.3:
        kw['CONSERVE'] = True
        div = mag if cplx else mag**2
    elif u < 0.5 and not cplx:
        kw['AMP_CONSERVE'] = True
        div = mag
    quick = bool(r.random() < 0.4)
    if quick:
        kw['QUICK'] = True
    img0 = img.copy()
    use_c(P, C)
    try:
        ok, out = mon.runs(lambda: P.prop_magnify(img, mag, *([nout] if nout else []), **kw), 'magnify-runs', str(kw))
    finally:
        use_c(P, False)
    if not ok:
        return
    mon.equal(img, img0, 'input-changed')
    m = nout or int(n*mag)
    what = 'magnify %.3f %d -> %d %s C=%s %s' % (mag, n, m, 'complex' if cplx else 'real', C, sorted(kw))
    if not mon.check(out.shape == (m, m), 'magnify-shape', what, got=out.shape):
        return
    gx, gy = grids((m, m), m//2, m//2, 1/mag)
    ref = f(gx, gy)/div
    margin = 4 if quick else 7.6
    lo, hi = -(n//2) + margin, n - n//2 - 1 - margin
    ins = (gx > lo) & (gx < hi) & (gy > lo) & (gy < hi)
    mon.close(out[ins], ref[ins], 'magnify-image', what, rtol=0.015, scale=f.scale()/div)
    mon.check(np.all(np.isfinite(out)), 'magnify-finite', what)
    if not quick:
        far = (np.abs(gx) > n//2 + 1) | (np.abs(gy) > n//2 + 1)
        mon.check(not np.any(out[far]), 'magnify-outside', what)
    mon.count('image pixels compared with the closed form', ins.sum())
    if C and not quick:
        py = P.prop_magnify(img, mag, *([nout] if nout else []), **kw)
        mon.close(out, py, 'magnify-compiled', what, rtol=1e-9, scale=f.scale()/div)
    mon.seen('magnify', cplx, quick, C, n % 2, m % 2, tuple(sorted(kw)))


def run_rotate(case, mon):
    r = rng_of(case)
    P = lib()
    C = bool(r.random() < 0.5) and all(LIBS.values())
    n = int(r.integers(40, 70))
    cplx = bool(r.random() < 0.5)
    f = Blobs(r, n/2, 5.0, cplx=cplx)
    t = float(r.choice([0, 90, 180, -90, r.uniform(-360, 360)]))
    kw = {}
    cx = cy = n//2
    xs = ys = 0.0
    if r.random() < 0.4:
        cx, cy = float(r.uniform(0.4, 0.6)*n), float(r.uniform(0.4, 0.6)*n)
        kw.update(XC=cx, YC=cy)
    if r.random() < 0.4:
        xs, ys = (float(v) for v in r.uniform(-4, 4, 2))
        kw.update(XSHIFT=xs, YSHIFT=ys)
    miss = 0.0
    if r.random() < 0.5:
        miss = float(r.uniform(2, 5))
        kw['MISSING'] = miss
    x, y = grids((n, n), 0, 0, 1.0)
    img = f(x - n//2, y - n//2)
    img0 = img.copy()
    use_c(P, C)
    try:
        ok, out = mon.runs(lambda: P.prop_rotate(img, t, **kw), 'rotate-runs', str(sorted(kw)))
    finally:
        use_c(P, False)
    if not ok:
        return
    mon.equal(img, img0, 'input-changed')
    th = np.radians(t)
    u, v = x - cx - xs, y - cy - ys
    sx, sy = u*np.cos(th) + v*np.sin(th) + cx, -u*np.sin(th) + v*np.cos(th) + cy
    ref = f(sx - n//2, sy - n//2)
    m = 4
    ins = (sx > m) & (sx < n - 1 - m) & (sy > m) & (sy < n - 1 - m)
    what = 'rotate %.1f %s on %d C=%s' % (t, sorted(kw), n, C)
    mon.check(out.shape == (n, n), 'rotate-shape', what)
    mon.close(out[ins], ref[ins], 'rotate-image', what, rtol=0.012, scale=f.scale())
    far = (sx < -1) | (sx > n) | (sy < -1) | (sy > n)
    mon.close(out[far], np.full(far.sum(), miss), 'rotate-missing', what, atol=1e-9, rtol=0)
    mon.count('image pixels compared with the closed form', ins.sum())
    mon.seen('rotate', t, cplx, C, tuple(sorted(kw)))


def run_pixellate(case, mon):
    r = rng_of(case)
    P = lib()
    C = bool(r.random() < 0.4) and bool(LIBS['szoom'])
    n = int(r.choice([64, 96, 128]))
    s = float(10**r.uniform(-6, -4))
    q = float(r.uniform(1.5, 4))                      # detector pixel / sample
    w = float(r.uniform(1.2, 2.0))*q
    x0, y0 = r.uniform(-0.08, 0.08, 2)*n
    x, y = grids((n, n), n//2, n//2, 1.0)
    img = np.exp(-((x - x0)**2 + (y - y0)**2)/w**2)
    nout = int(r.choice([0, int(r.integers(10, 30))]))
    use_c(P, C)
    try:
        ok, out = mon.runs(lambda: P.prop_pixellate(img, s, q*s, *([nout] if nout else [])), 'pixellate-runs')
    finally:
        use_c(P, False)
    if not ok:
        return
    m = nout or int(np.fix(n/q))
    what = 'pixellate %d by %.2f to %d' % (n, q, m)
    if not mon.check(out.shape == (m, m), 'pixellate-shape', what, got=out.shape):
        return
    erf = np.vectorize(math.erf)
    c = (np.arange(m) - m//2)*q

    def integ(o):
        return w*np.sqrt(np.pi)/2*(erf((c + q/2 - o)/w) - erf((c - q/2 - o)/w))
    ref = integ(y0)[:, None]*integ(x0)[None, :]
    gx, gy = np.meshgrid(c, c)
    lo, hi = -(n//2) + 8, n - n//2 - 9
    ins = (gx > lo) & (gx < hi) & (gy > lo) & (gy < hi)
    mon.close(out[ins], ref[ins], 'pixellate-image', what, rtol=0.02, scale=ref.max())
    if not nout:
        mon.close(out.sum(), img.sum(), 'pixellate-flux', what, rtol=0.02)
    mon.count('image pixels compared with the closed form', ins.sum())
    mon.seen('pixellate', n, bool(nout), C)


def run_psd(case, mon):
    """ensemble statistics of random maps"""
    r = rng_of(case)
    P = lib()
    n = int(r.choice([48, 64]))
    diam, frac, lam = float(10**r.uniform(-1, 0.5)), float(r.uniform(0.4, 0.9)), 6e-7
    dx = diam/(n*frac)
    dk = 1/(n*dx)
    amp = float(10**r.uniform(-20, -18))
    b = float(r.uniform(1.5, 6)*dk)
    c = float(r.uniform(1.5, 3.5))
    kw = {}
    tpf = bool(r.random() < 0.5)
    if tpf:
        kw['TPF'] = True
    mode = str(r.choice(['plain', 'rms', 'mirror', 'amp']))
    if mode in ('rms', 'mirror'):
        kw['RMS'] = True
        amp = lam*0.02
    if mode == 'mirror':
        kw['MIRROR'] = True
    top = 0.9
    if mode == 'amp':
        amp = 0.02
        kw['AMPLITUDE'] = top
    fmax = None
    if r.random() < 0.5:
        fmax = float(r.uniform(8, n/2 - 3)*dk)
        kw['MAX_FREQUENCY'] = fmax
    inc = rot = 0.0
    if r.random() < 0.5:
        inc, rot = float(r.uniform(20, 60)), float(r.choice([0, r.uniform(-90, 90)]))
        kw.update(INCLINATION=inc, ROTATION=rot)
    noapply = bool(r.random() < 0.3)
    if noapply:
        kw['NO_APPLY'] = True
    # spectrum asked for, on the wavefront's frequency axes
    k = (np.arange(n) - n//2)*dk
    kx, ky = np.meshgrid(k, k)
    a = -np.radians(rot)
    u, v = kx*np.cos(a) - ky*np.sin(a), (kx*np.sin(a) + ky*np.cos(a))*np.cos(np.radians(inc))
    kk = np.hypot(u, v)
    psd = 1/(1 + (kk/b)**c) if tpf else 1/(1 + (kk/b)**2)**((c + 1)/2)
    full = psd.copy()
    full[n//2, n//2] = 0
    K = 24
    acc = np.zeros((n, n))
    flags = (P.use_fftw, P.use_ffti)
    had = sys.modules.get('pyfftw')
    home = os.environ.get('HOME')
    os.environ['HOME'] = SCRATCH
    what = '%s tpf=%s fmax=%s inc=%.0f rot=%.0f' % (mode, tpf, fmax is not None, inc, rot)
    try:
        if had is None:
            sys.modules['pyfftw'] = types.ModuleType('pyfftw')     # as on a machine which has it installed
        for _ in range(K):
            wf = P.prop_begin(diam, lam, n, frac)
            start = P.prop_get_wavefront(wf).copy()
            m = P.prop_psd_errormap(wf, amp, b, c, **kw)
            got = P.prop_get_wavefront(wf)
            if noapply:
                mon.equal(got, start, 'psd-no-apply', what)
            elif mode == 'amp':
                mon.close(got, start*m, 'psd-applied', what, rtol=1e-9)
            else:
                f = 2 if mode == 'mirror' else 1
                mon.close(got, start*np.exp(2j*np.pi*f*m/lam), 'psd-applied', what, rtol=1e-9)
            std = float(np.std(m))
            if mode == 'amp':
                mon.close(m.max(), top, 'psd-amplitude-max', what, rtol=1e-9)
            if mode != 'plain':
                mon.close(std, amp, 'psd-rms', what, rtol=1e-9)
            elif fmax is None:
                mon.close(std, np.sqrt(amp*np.sum(full))*dk, 'psd-rms', what, rtol=1e-6)
            mon.close(float(np.mean(m - (m.mean() if mode == 'amp' else 0))), 0.0, 'psd-mean', what, atol=1e-9*std)
            acc += np.abs(np.fft.fftshift(np.fft.fft2(m - m.mean())))**2/std**2
        mon.check((P.use_fftw, P.use_ffti) == flags, 'fft-choice-changed', what)
    finally:
        P.use_fftw, P.use_ffti = flags
        if had is None:
            sys.modules.pop('pyfftw', None)
        if home is not None:
            os.environ['HOME'] = home
    # the real part mixes a frequency with its mirror image, so average the target too
    sym = 0.5*(full + np.roll(full[::-1, ::-1], (1 - n % 2, 1 - n % 2), (0, 1)))
    core = np.ones((n, n), bool)
    core[0, :] = core[:, 0] = False
    core[n//2, n//2] = False
    if fmax is not None:
        mon.check(acc[core & (kk > fmax*(1 + 1e-9))].sum() < 1e-9*acc.sum(), 'psd-max-frequency', what)
        core &= kk <= fmax
    rat = acc[core]/sym[core]
    rat = rat/np.mean(rat)
    # bins in |k| and in azimuth; each holds many modes of many maps
    q = kk[core]
    phi = np.arctan2(ky[core], kx[core]) % np.pi
    order = np.argsort(q)
    nb = max(3, len(q)//220)
    for part, lab in ((np.array_split(order, nb), 'radius'), ([np.where((phi >= j*np.pi/6) & (phi < (j+1)*np.pi/6))[0]
                                                               for j in range(6)], 'angle')):
        for idx in part:
            if len(idx) < 60:
                continue
            # modes come in conjugate pairs; one sample is an exponential-like variate
            sd = 1/np.sqrt(len(idx)/2*K)
            mon.check(abs(np.mean(rat[idx]) - 1) < 7*1.3*sd + 0.02, 'psd-shape-' + lab, what,
                      got=np.mean(rat[idx]), sd=sd)
            mon.count('spectral bins judged')
    mon.seen('psd', mode, tpf, fmax is not None, inc > 0, rot != 0)


def run_roundtrip(case, mon):
    """a random map that is written once is read back the same, and a written map keeps its labels"""
    from astropy.io import fits
    r = rng_of(case)
    P = lib()
    n = int(r.choice([32, 64]))
    diam, frac, lam = float(r.uniform(0.05, 1)), float(r.uniform(0.4, 0.9)), 6e-7
    fn = path(case)
    if os.path.exists(fn):
        os.remove(fn)
    try:
        kw = {}
        if r.random() < 0.3:
            kw['MIRROR'] = True
        wf = P.prop_begin(diam, lam, n, frac)
        m1 = P.prop_psd_errormap(wf, lam*0.05, 3/diam, 2.5, RMS=True, FILE=fn, **kw)
        f1 = P.prop_get_wavefront(wf).copy()
        mon.check(os.path.exists(fn), 'psd-file-written')
        stat = open(fn, 'rb').read()
        wf = P.prop_begin(diam, lam, n, frac)
        m2 = P.prop_psd_errormap(wf, 1e-30, 1.0, 9.0, FILE=fn, **kw)
        mon.close(m2, m1, 'psd-file-read', rtol=1e-6)
        mon.close(P.prop_get_wavefront(wf), f1, 'psd-file-applied', rtol=1e-6)
        mon.check(open(fn, 'rb').read() == stat, 'psd-file-kept')
        wf = P.prop_begin(diam, lam, n, frac)
        m3 = P.prop_errormap(wf, fn, **({'MIRROR_SURFACE': True, 'MULTIPLY': -1} if kw else {'WAVEFRONT': True}))
        mon.close(P.prop_get_wavefront(wf), f1, 'psd-file-as-errormap', rtol=1e-6)
        os.remove(fn)
        arr = r.normal(size=(int(r.integers(20, 40)), int(r.integers(20, 40))))
        typ = str(r.choice(['AMPLITUDE', 'MIRROR', 'WAVEFRONT']))
        P.prop_writemap(arr, fn, SAMPLING=0.01, **{typ: True})
        with fits.open(fn) as h:
            hd = h[0].header
            mon.close(np.asarray(h[0].data, float), arr, 'map-data', rtol=0)
            mon.check(hd['MAPTYPE'] == typ.lower() and hd['PIXSIZE'] == 0.01, 'map-labels')
            mon.check(hd['XC_PIX'] == arr.shape[1]//2 and hd['YC_PIX'] == arr.shape[0]//2, 'map-centre',
                      shape=arr.shape)
        mon.close(P.prop_fits_read(fn), arr, 'fits-read', rtol=0)
        mon.raises(ValueError, lambda: P.prop_writemap(arr, fn), 'map-needs-scale')
        os.remove(fn)
        P.prop_fits_write(fn, arr, HEADER={'ABC': (3, 'x')})
        img, hd = P.prop_fits_read(fn, header=True)
        mon.close(img, arr, 'fits-roundtrip', rtol=0)
        mon.check(hd['ABC'] == 3, 'fits-header')
    finally:
        if os.path.exists(fn):
            os.remove(fn)
    mon.seen('roundtrip', typ, n, bool(kw))


def run_case(case, mon):
    if not LIBS:
        prepare('quick')
    mon.check(all(LIBS.values()), 'interpolators-compile')
    globals()['run_' + case['kind']](case, mon)
