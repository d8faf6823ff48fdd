"""R02: drawn apertures.  Ellipses, rectangles, rounded rectangles, polygons and
segmented apertures are compared with the exact fraction of each pixel that the
shape covers (Green's theorem on the pixel corners), for random sizes, offsets,
rotations, antialiasing factors and shapes partly or wholly off the grid."""
import numpy as np

from rv.core import rng_of
from rv import refzern

RULE = ('every pixel of a drawn shape holds the fraction of its area that the shape covers, to the accuracy of the '
        'antialiasing; dark shapes are the complement; apertures and obscurations multiply the beam by it')
NPROC = 8


def cover(px, py, n):
    """fraction of each pixel of an n x n grid (pixel (n//2, n//2) centred on the origin) inside the polygon"""
    X = np.arange(n + 1) - n//2 - 0.5
    F = np.zeros((n + 1, n + 1))
    N = len(px)
    for i in range(N):
        x1, y1, x2, y2 = px[i], py[i], px[(i+1) % N], py[(i+1) % N]
        if y1 == y2:
            continue
        sg = 1.0
        if y2 < y1:
            x1, y1, x2, y2, sg = x2, y2, x1, y1, -1.0
        ye = np.clip(X, y1, y2)                       # upper end of the part below each Y
        dy = ye - y1
        xe = x1 + (x2 - x1)*(dy/(y2 - y1))
        lo, hi = np.minimum(x1, xe)[:, None], np.maximum(x1, xe)[:, None]
        w = hi - lo
        small = w < 1e-13
        m = X[None, :] - (np.clip(X[None, :] - lo, 0, None)**2 - np.clip(X[None, :] - hi, 0, None)**2) \
            / (2*np.where(small, 1, w))
        m = np.where(small, np.minimum(lo, X[None, :]), m)
        F += sg*m*dy[:, None]
    a = np.diff(np.diff(F, axis=0), axis=1)
    return np.abs(a) if abs(a.min()) > abs(a.max()) else a


def cases(tier, seed):
    k = dict(quick=(60, 80, 40, 80, 16), thorough=(1500, 2500, 1000, 2500, 500))[tier]
    out = []
    for kind, n in zip(('ellipse', 'rectangle', 'rounded', 'polygon', 'hexes'), k):
        out += [dict(kind=kind, i=i, seed=seed) for i in range(n)]
    return out


class Bench:
    def __init__(self, r, n=None):
        import falco.proper as proper
        proper.print_it = proper.verbose = proper.do_table = False
        self.pr = proper
        self.n = n or int(r.choice([16, 24, 40, 64]))
        self.diam = float(10**r.uniform(-2, 1))
        self.frac = float(r.uniform(0.2, 0.9))
        self.wf = proper.prop_begin(self.diam, 5e-7, self.n, self.frac)
        self.dx = self.diam/(self.n*self.frac)
        self.nsub = int(r.choice([1, 3, 11, 11, 25]))
        proper.prop_set_antialiasing(self.nsub)
        self.norm = bool(r.random() < 0.4)
        self.u = self.diam/2 if self.norm else 1.0     # unit of the arguments in metres
        self.arr = r.normal(size=(self.n, self.n)) + 1j*r.normal(size=(self.n, self.n))

    def px(self, v):            # pixels -> argument
        return v*self.dx/self.u

    def judge(self, mon, got, ref, key, what, tol=None, dark=False):
        n, s = self.n, self.nsub
        tol = tol if tol is not None else 1.15/s + 1e-6
        mon.check(got.shape == (n, n), key + '-shape', what)
        mon.check(got.min() > -1e-9 and got.max() < 1 + 1e-9, key + '-range', what, lo=got.min(), hi=got.max())
        full, empty = ref > 1 - 1e-9, ref < 1e-9
        mon.close(got[full], np.ones(full.sum()), key + '-inside', what, atol=1e-9, rtol=0)
        mon.close(got[empty], np.zeros(empty.sum()), key + '-outside', what, atol=1e-9, rtol=0)
        mon.close(got, ref, key + '-coverage', what, atol=tol, rtol=0, nsub=s)
        part = ~(full | empty)
        mon.count('partly covered pixels compared', part.sum())

    def applied(self, mon, fn, args, kw, mask, key):
        wf = self.pr.prop_begin(self.diam, 5e-7, self.n, self.frac)
        self.pr.prop_multiply(wf, self.arr)
        fn(wf, *args, **kw)
        mon.close(self.pr.prop_get_wavefront(wf), self.arr*mask, key + '-applied', fn.__name__, rtol=1e-12)


def place(r, n):
    """offset of the centre in pixels: usually on the grid, sometimes at or off the edge, sometimes zero"""
    u = r.random()
    if u < 0.2:
        return 0.0, 0.0
    if u < 0.75:
        return tuple(r.uniform(-0.25, 0.25, 2)*n)
    if u < 0.9:
        return tuple(r.uniform(-0.6, 0.6, 2)*n)
    return tuple(np.where(r.random(2) < 0.5, 1, -1)*r.uniform(0.8, 1.5, 2)*n)


def rot(x, y, t):
    return x*np.cos(t) - y*np.sin(t), x*np.sin(t) + y*np.cos(t)


def run_ellipse(case, mon):
    r = rng_of(case)
    b = Bench(r)
    n = b.n
    a = float(10**r.uniform(-0.3, np.log10(0.6*n)))
    c = a if r.random() < 0.35 else float(10**r.uniform(-0.3, np.log10(0.6*n)))
    x0, y0 = place(r, n)
    t = float(r.choice([0, 0, 30, 90, r.uniform(-180, 180)]))
    kw = dict(NORM=b.norm)
    if t:
        kw['ROTATION'] = t
    args = (b.px(a), b.px(c), b.px(x0), b.px(y0))
    th = 2*np.pi*np.arange(600)/600
    # the polygon has the ellipse's area, not its vertices
    g = np.sqrt(2*np.pi/600/np.sin(2*np.pi/600))
    ex, ey = rot(a*g*np.cos(th), c*g*np.sin(th), -np.radians(t))
    ref = cover(ex + x0, ey + y0, n)
    what = 'ellipse %.2f x %.2f px at (%.1f, %.1f) rot %.0f on %d' % (a, c, x0, y0, t, n)
    got = b.pr.prop_ellipse(b.wf, *args, **kw)
    tiny = 2.0 if min(a, c) < 1 else 1.0
    tol = tiny*1.3/b.nsub + 1e-3
    # pixels the outline only grazes count as inside/outside within the polygon's own error
    ref2 = np.where(ref < 2e-3, 0, np.where(ref > 1 - 2e-3, 1, ref))
    mon.check(got.min() > -1e-9 and got.max() < 1 + 1e-9, 'ellipse-range', what)
    mon.close(got, ref, 'ellipse-coverage', what, atol=tol, rtol=0, nsub=b.nsub)
    d = np.abs(got - ref)
    mon.check(np.all(d[(ref2 == 0) | (ref2 == 1)] < 0.3/b.nsub + 0.01), 'ellipse-interior', what,
              worst=d[(ref2 == 0) | (ref2 == 1)].max())
    part = (ref2 > 0) & (ref2 < 1)
    if part.sum() > 8 and b.nsub >= 11:
        mon.check(abs(np.mean((got - ref)[part])) < 0.3*tol, 'ellipse-bias', what, got=np.mean((got - ref)[part]))
    mon.count('partly covered pixels compared', part.sum())
    dark = b.pr.prop_ellipse(b.wf, *args, DARK=True, **kw)
    mon.close(dark, 1 - got, 'ellipse-dark', what, atol=1e-12, rtol=0)
    b.applied(mon, b.pr.prop_elliptical_aperture, args, kw, got, 'ellipse')
    b.applied(mon, b.pr.prop_elliptical_obscuration, args, kw, dark, 'ellipse')
    if a == c:
        circ = b.pr.prop_ellipse(b.wf, *args, NORM=b.norm)
        b.applied(mon, b.pr.prop_circular_aperture, (args[0],) + args[2:], dict(NORM=b.norm), circ, 'circle')
        b.applied(mon, b.pr.prop_circular_obscuration, (args[0],) + args[2:], dict(NORM=b.norm), 1 - circ, 'circle')
    mon.seen('ellipse', b.nsub, b.norm, t, bool(part.any()))
    mon.raises(ValueError, lambda: b.pr.prop_set_antialiasing(int(r.choice([2, 10, 0]))), 'even-antialiasing')


def run_rectangle(case, mon):
    r = rng_of(case)
    b = Bench(r)
    n = b.n
    w, h = 10**r.uniform(-0.7, np.log10(1.2*n), 2)
    x0, y0 = place(r, n)
    t = float(r.choice([0, 0, 45, 90, r.uniform(-180, 180), r.uniform(-1, 1)]))
    kw = dict(NORM=b.norm)
    if t:
        kw['ROTATION'] = t
    args = (b.px(w), b.px(h), b.px(x0), b.px(y0))
    vx, vy = rot(np.array([-1, 1, 1, -1])*w/2, np.array([-1, -1, 1, 1])*h/2, np.radians(t))
    ref = cover(vx + x0, vy + y0, n)
    what = 'rectangle %.2f x %.2f px at (%.1f, %.1f) rot %.1f on %d' % (w, h, x0, y0, t, n)
    got = b.pr.prop_rectangle(b.wf, *args, **kw)
    b.judge(mon, got, ref, 'rectangle', what)
    dark = b.pr.prop_rectangle(b.wf, *args, DARK=True, **kw)
    mon.close(dark, 1 - got, 'rectangle-dark', what, atol=1e-12, rtol=0)
    b.applied(mon, b.pr.prop_rectangular_aperture, args, kw, got, 'rectangle')
    b.applied(mon, b.pr.prop_rectangular_obscuration, args, kw, dark, 'rectangle')
    if x0 == 0 and y0 == 0:
        mon.close(b.pr.prop_rectangle(b.wf, *args[:2], **kw), got, 'rectangle-default-centre', what, atol=1e-12, rtol=0)
    mon.seen('rectangle', b.nsub, b.norm, t in (0, 90), min(w, h) < 1)


def run_rounded(case, mon):
    r = rng_of(case)
    b = Bench(r, int(r.choice([32, 48, 64])))
    n = b.n
    w, h = r.uniform(8, 0.9*n, 2)
    c = float(r.uniform(2, min(w, h)/2 - 1))
    x0, y0 = place(r, n)
    th = np.linspace(0, np.pi/2, 160)
    g = 1 + (np.pi/2/159)**2/12
    vx, vy = [], []
    for q, (sx, sy) in enumerate([(1, 1), (-1, 1), (-1, -1), (1, -1)]):
        a = th + q*np.pi/2
        vx.append(sx*(w/2 - c) + c*g*np.cos(a))
        vy.append(sy*(h/2 - c) + c*g*np.sin(a))
    ref = cover(np.concatenate(vx) + x0, np.concatenate(vy) + y0, n)
    what = 'rounded %.1f x %.1f px corner %.1f at (%.1f, %.1f) on %d' % (w, h, c, x0, y0, n)
    ok, got = mon.runs(lambda: b.pr.prop_rounded_rectangle(b.wf, c*b.dx, w*b.dx, h*b.dx, x0*b.dx, y0*b.dx),
                       'rounded-runs', what)
    if not ok:
        return
    tol = 1.3/b.nsub + 0.15/c + 1e-3
    mon.check(got.min() > -1e-9 and got.max() < 1 + 1e-9, 'rounded-range', what)
    mon.close(got, ref, 'rounded-coverage', what, atol=tol, rtol=0, nsub=b.nsub)
    d = np.abs(got - ref)
    sure = (ref < 1e-9) | (ref > 1 - 1e-9)
    mon.check(np.all(d[sure] < 0.3/b.nsub + 0.15/c), 'rounded-interior', what, worst=d[sure].max() if sure.any() else 0)
    mon.count('partly covered pixels compared', (~sure).sum())
    mon.seen('rounded', b.nsub, n)


def run_polygon(case, mon):
    r = rng_of(case)
    b = Bench(r)
    n = b.n
    x0, y0 = place(r, n)
    if r.random() < 0.5:
        nv = int(r.integers(3, 13))
        R = float(10**r.uniform(0, np.log10(0.7*n)))
        t = float(r.choice([0, 0, 30, r.uniform(-360, 360)]))
        th = 2*np.pi*np.arange(nv)/nv + np.radians(t)
        ref = cover(R*np.cos(th) + x0, R*np.sin(th) + y0, n)
        kw = dict(NORM=b.norm)
        if t:
            kw['ROTATION'] = t
        what = 'polygon %d r %.2f px at (%.1f, %.1f) rot %.1f on %d' % (nv, R, x0, y0, t, n)
        args = (nv, b.px(R), b.px(x0), b.px(y0))
        got = b.pr.prop_polygon(b.wf, *args, **kw)
        b.judge(mon, got, ref, 'polygon', what)
        mon.close(b.pr.prop_polygon(b.wf, *args, DARK=True, **kw), 1 - got, 'polygon-dark', what, atol=1e-12, rtol=0)
        if x0 == 0 and y0 == 0:
            mon.close(b.pr.prop_polygon(b.wf, *args[:2], **kw), got, 'polygon-default-centre', what, atol=1e-12,
                      rtol=0)
        mon.seen('polygon', nv, b.nsub, b.norm)
    else:
        nv = int(r.integers(3, 9))
        th = np.sort(r.uniform(0, 2*np.pi, nv))
        if np.min(np.diff(th)) < 0.05:
            th = 2*np.pi*np.arange(nv)/nv
        A, B = 10**r.uniform(0.3, np.log10(0.8*n), 2)
        vx, vy = rot(A*np.cos(th), B*np.sin(th), float(r.uniform(0, np.pi)))
        if r.random() < 0.3:                              # an axis-aligned box: horizontal and vertical edges
            vx, vy, nv = np.array([-A, A, A, -A]), np.array([-B, -B, B, B]), 4
        k = int(r.integers(nv))
        vx, vy = np.roll(vx, k) + x0, np.roll(vy, k) + y0
        if r.random() < 0.5:
            vx, vy = vx[::-1], vy[::-1]
        ref = cover(vx, vy, n)
        cx, cy = np.append(vx, vx[0]), np.append(vy, vy[0])
        ax, ay = b.px(cx), b.px(cy)
        a0 = ax.copy()
        what = 'convex polygon of %d vertices on %d' % (nv, n)
        got = b.pr.prop_irregular_polygon(b.wf, ax, ay, NORM=b.norm)
        mon.equal(ax, a0, 'input-changed', what)
        b.judge(mon, got, ref, 'irregular', what)
        mon.close(b.pr.prop_irregular_polygon(b.wf, ax, ay, NORM=b.norm, DARK=True), 1 - got, 'irregular-dark', what,
                  atol=1e-12, rtol=0)
        mon.seen('irregular', nv, b.nsub, b.norm)


def run_hexes(case, mon):
    """segmented hexagonal apertures with per-segment wavefronts"""
    r = rng_of(case)
    b = Bench(r, 64)
    n = b.n
    rings = int(r.integers(0, 3))
    nseg = 3*rings*(rings + 1) + 1
    R = float(r.uniform(0.7, 1)*n*0.42/(np.sqrt(3)*rings + 1))
    gap = float(r.uniform(1.0, 2.5))
    sep = np.sqrt(3)*R + gap
    t = float(r.choice([0, r.uniform(-40, 40)]))
    x0, y0 = (0.0, 0.0) if r.random() < 0.4 else tuple(r.uniform(-3, 3, 2))
    zv = np.zeros((22, nseg))
    wav = bool(r.random() < 0.7)
    if wav:
        use = np.array([0, 1, 2, 3, 4, 5, 7, 10])
        zv[use] = r.normal(size=(len(use), nseg))*3e-8
    kw = {}
    dark = rings > 0 and bool(r.random() < 0.4)
    if dark:
        kw['DARKCENTER'] = True
    omit = []
    if rings and r.random() < 0.4:
        omit = sorted(int(v) for v in r.choice(nseg, int(r.integers(1, nseg)), replace=False))
        kw['OMIT'] = omit
    if t:
        kw['ROTATION'] = t
    if x0 or y0:
        kw.update(XCENTER=x0*b.dx, YCENTER=y0*b.dx)
    apply = bool(r.random() < 0.6)
    if not apply:
        kw['NO_APPLY'] = True
    b.pr.prop_multiply(b.wf, b.arr)
    res = b.pr.prop_hex_wavefront(b.wf, rings, R*b.dx, sep*b.dx, *([zv] if wav else []), **kw)
    ap, ph = res if wav else (res, None)
    # segment centres in the order of the columns, from the published layout
    cen = []
    for ring in range(rings + 1):
        x = sep*np.cos(np.pi/6)*ring
        for k in range(2*rings - ring + 1):
            y = -rings*sep + ring*sep/2 + k*sep
            cen.append((x, y))
            if ring:
                cen.append((-x, y))
    what = 'segments: %d rings rot %.1f omit %s dark %s' % (rings, t, omit, dark)
    ref = np.zeros((n, n))
    inner = np.zeros((n, n), int) - 1
    yy, xx = np.mgrid[:n, :n] - n//2
    loc = {}
    for k, (cx, cy) in enumerate(cen):
        cx, cy = rot(cx, cy, np.radians(t))
        th = np.arange(6)*np.pi/3 + np.radians(t)
        c = cover(R*np.cos(th) + cx + x0, R*np.sin(th) + cy + y0, n)
        if k not in omit:
            if not (dark and np.hypot(cx, cy) < 1e-6*R):
                ref += c
            inner[c > 1 - 1e-9] = k
            loc[k] = (cx + x0, cy + y0)
    mon.check(len(cen) == nseg, 'segment-count')
    mon.close(ap, ref, 'segments-coverage', what, atol=2.3/b.nsub + 1e-6, rtol=0)
    sure = (ref < 1e-9) | (ref > 1 - 1e-9)
    mon.close(ap[sure], ref[sure], 'segments-interior', what, atol=1e-8, rtol=0)
    if wav:
        pref = np.zeros((n, n))
        for k, (cx, cy) in loc.items():
            m = inner == k
            u, v = rot(xx[m] - cx, yy[m] - cy, -np.radians(t))
            rho, phi = np.hypot(u, v)/R, np.arctan2(v, u)
            for j in range(1, 23):
                if zv[j-1, k]:
                    pref[m] += zv[j-1, k]*refzern.hexzern(j, rho, phi)
        m = inner >= 0
        mon.close(ph[m], pref[m], 'segments-phase', what, rtol=5e-3, atol=1e-12)
        if not dark:
            mon.check(not np.any(ph[(ref < 1e-9) & (inner < 0) & (ap < 1e-9)]),
                      'segments-phase-outside', what)
        mon.count('segment pixels with phase', m.sum())
    exp = b.arr.copy()
    if apply:
        exp = exp*ap*(np.exp(2j*np.pi*ph/5e-7) if wav else 1)
    mon.close(b.pr.prop_get_wavefront(b.wf), exp, 'segments-applied', what, rtol=1e-9)
    mon.seen('hexes', rings, dark, tuple(omit), wav, apply)


def run_case(case, mon):
    try:
        globals()['run_' + case['kind']](case, mon)
    finally:
        import falco.proper as proper
        proper.prop_set_antialiasing(11)
