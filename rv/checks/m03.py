"""M03: dark-hole software masks, dark-hole configuration and spatial weights."""
import numpy as np
import falco
from falco import mask
from rv.core import rng_of

RULE = ('software masks of every shape/side/centering/clocking/offset/FOV judged pixel by pixel against the region definition, '
        'and dark-hole set-up (multi-zone unions, scoring subset, coordinates, spatial weights); '
        'distinct = (shape, side, centering, options used, zones)')

SIDES = {'r': 0, 'right': 0, 'l': 180, 'left': 180, 't': 90, 'top': 90, 'u': 90, 'up': 90, 'b': 270, 'bottom': 270, 'd': 270, 'down': 270,
         'lr': 0, 'rl': 0, 'leftright': 0, 'rightleft': 0, 'both': 0,
         'tb': 90, 'bt': 90, 'ud': 90, 'du': 90, 'topbottom': 90, 'bottomtop': 90, 'updown': 90, 'downup': 90}
TWO = {'lr', 'rl', 'leftright', 'rightleft', 'both', 'tb', 'bt', 'ud', 'du', 'topbottom', 'bottomtop', 'updown', 'downup'}
SHAPES = ('circle', 'annulus', 'square', 'rect', 'rectangle', 'd', 'D', 'Square')


def cases(tier, seed):
    out = []
    n = 1 if tier == 'quick' else 12
    for i in range(n):
        for sh in SHAPES:
            for b in range(4):
                out.append(dict(kind='mask', shape=sh, i=i, b=b, seed=seed))
        for b in range(24):
            out.append(dict(kind='setup', i=i, b=b, seed=seed))
    return out


def region(shape, rin, rout, ang, side, clock, x, y):
    """(inside, margin): membership of each point, and its distance from any boundary."""
    th0 = SIDES[side] + clock
    t = np.radians(th0)
    u = x*np.cos(t) + y*np.sin(t)
    v = -x*np.sin(t) + y*np.cos(t)
    rho = np.hypot(x, y)
    sh = shape.lower()
    if sh in ('circle', 'annulus'):
        s = (rho >= rin) & (rho <= rout)
        m = np.minimum(abs(rho-rin), abs(rho-rout))
    elif sh == 'square':
        s = (abs(u) <= rout) & (abs(v) <= rout) & (rho >= rin)
        m = np.minimum.reduce([abs(abs(u)-rout), abs(abs(v)-rout), abs(rho-rin)])
    elif sh in ('rect', 'rectangle'):
        s = (abs(u) <= rout) & (abs(v) <= rout) & (abs(u) >= rin)
        m = np.minimum.reduce([abs(abs(u)-rout), abs(abs(v)-rout), abs(abs(u)-rin)])
    else:
        s = (abs(u) >= rin) & (rho <= rout)
        m = np.minimum(abs(abs(u)-rin), abs(rho-rout))
    a = np.degrees(np.arctan2(v, u))      # angle from the side's axis
    d1 = abs(a)
    d2 = 180-abs(a)
    ok = d1 <= ang/2
    am = abs(d1-ang/2)
    if side in TWO:
        ok = ok | (d2 <= ang/2)
        am = np.minimum(am, abs(d2-ang/2))
    if (side in TWO and ang >= 180) or ang >= 360:
        ok = np.ones_like(s)
        am = np.full(x.shape, 9.)
    m = np.minimum(m, np.radians(am)*rho)
    # the origin has no azimuth
    m = np.where(rho < 1e-9, 0, m)
    return s & ok, m


def axis_of(n, res, cen):
    return (np.arange(n) - n//2 + (0.5 if cen == 'interpixel' else 0))/res


def gen_mask_inputs(r, shape):
    side = str(r.choice(list(SIDES)))
    inp = dict(pixresFP=float(r.choice([1.5, 2, 2.5, 3, 4.3])), rhoInner=float(r.choice([0, 1.5, 2.8, 3])), rhoOuter=float(r.choice([5, 6.5, 9, 10])),
               angDeg=float(r.choice([60, 65, 90, 120, 160, 180])), whichSide=side, shape=shape)
    if r.random() < 0.8:
        inp['centering'] = str(r.choice(['pixel', 'interpixel']))
    if r.random() < 0.5:
        inp['clockAngDeg'] = float(r.choice([15, 45, 60, 75, 90, -30, 130, r.uniform(-180, 180)]))
    if r.random() < 0.4:
        inp['xiOffset'] = float(r.choice([2, -3.3, r.uniform(-8, 8)]))
    if r.random() < 0.4:
        inp['etaOffset'] = float(r.choice([2, -3.3, r.uniform(-8, 8)]))
    return inp


def run_mask(case, mon, r):
    for _ in range(6):
        inp = gen_mask_inputs(r, case['shape'])
        cen = inp.get('centering', 'pixel')
        if r.random() < 0.3:
            inp['FOV'] = float(r.uniform(8, 16))
        if r.random() < 0.15:
            inp['xiFOV'] = float(r.uniform(6, 16))
        if r.random() < 0.15:
            inp['etaFOV'] = float(r.uniform(6, 16))
        if r.random() < 0.15:
            inp['Nxi'] = int(2*r.integers(8, 40))
        if r.random() < 0.15:
            inp['Neta'] = int(2*r.integers(8, 40))
        keep = dict(inp)
        out = mask.falco_gen_SW_mask(inp)
        mon.check(len(out) == 3, 'returns', 'not (mask, xis, etas)')
        m, xis, etas = out
        mon.check(inp == keep, 'input-mutated', 'inputs dictionary changed')
        mon.check(m.shape == (len(etas), len(xis)) and m.shape[0] % 2 == 0 and m.shape[1] % 2 == 0, 'even-shape', 'mask is not even sized or not (eta, xi)')
        mon.check(m.dtype == bool or set(np.unique(m)) <= {0, 1}, 'binary', 'mask is not binary')
        res = inp['pixresFP']
        mon.close(xis, axis_of(len(xis), res, cen), 'xis', 'horizontal coordinates', atol=1e-9)
        mon.close(etas, axis_of(len(etas), res, cen), 'etas', 'vertical coordinates', atol=1e-9)
        for nm, n, fkey in (('Nxi', len(xis), 'xiFOV'), ('Neta', len(etas), 'etaFOV')):
            if nm in inp:
                mon.check(n == inp[nm], 'array-size', 'requested array size ignored', got=n, want=inp[nm])
            else:
                fov = inp.get(fkey, inp.get('FOV', inp['rhoOuter']))
                mon.check(n/2/res >= fov-1e-9, 'fov', 'array smaller than the minimum field of view', n=n, fov=fov, res=res)
        X, Y = np.meshgrid(xis - inp.get('xiOffset', 0), etas - inp.get('etaOffset', 0))
        want, margin = region(inp['shape'], inp['rhoInner'], inp['rhoOuter'], inp['angDeg'], inp['whichSide'], inp.get('clockAngDeg', 0), X, Y)
        sure = margin > 1e-7
        bad = (m.astype(bool) != want) & sure
        mon.check(not bad.any(), 'region', 'pixels outside the stated region are selected or inside ones are not', n=int(bad.sum()), inputs=inp)
        if not ({'FOV', 'xiFOV', 'etaFOV', 'Nxi', 'Neta'} & set(inp)):
            # the default array holds the whole region: a much larger one selects no more pixels
            big = dict(inp, FOV=3*inp['rhoOuter'] + 20)
            mb, _, _ = mask.falco_gen_SW_mask(big)
            wb = abs(int(mb.sum()) - int(m.sum()))
            edge = 4 if inp['shape'].lower() in ('circle', 'annulus', 'd') else 4*m.shape[0]
            mon.check(wb <= edge, 'default-fov', 'default field of view cuts the region', got=m.sum(), want=mb.sum(), inputs=inp)
        mon.seen(case['shape'], inp['whichSide'], cen, sorted(set(inp) - {'rhoInner'}), inp['angDeg'])
    bad = dict(inp, whichSide='sideways')
    mon.raises(ValueError, lambda: mask.falco_gen_SW_mask(bad), 'bad-side', 'unknown side accepted')
    bad = dict(inp, shape='blob')
    mon.raises(ValueError, lambda: mask.falco_gen_SW_mask(bad), 'bad-shape', 'unknown shape accepted')


def run_setup(case, mon, r):
    mp = falco.config.ModelParameters()
    mp.centering = str(r.choice(['pixel', 'interpixel']))
    nz = int(r.integers(1, 4))
    mp.Fend.res = float(r.choice([2, 2.5, 3]))
    mp.Fend.corr = falco.config.Object()
    mp.Fend.score = falco.config.Object()
    rin = [float(v) for v in r.uniform(1, 3, nz)]
    rout = [float(v) for v in r.uniform(6, 9, nz)]
    ang = [float(v) for v in r.choice([70, 90, 130, 180], nz)]
    srin = [v + float(r.uniform(0, .5)) for v in rin]
    srout = [v - float(r.uniform(0, .5)) for v in rout]
    sang = [v if r.random() < 0.5 else v - 10 for v in ang]
    sides = [str(v) for v in r.choice(['l', 'r', 'lr', 't', 'b', 'ud'], nz)]
    shapes = [str(v) for v in r.choice(['circle', 'square', 'd', 'rect'], nz)]
    scal = nz == 1 and r.random() < 0.5
    conv = (lambda v: v[0]) if scal else (lambda v: list(v))
    mp.Fend.corr.Rin, mp.Fend.corr.Rout, mp.Fend.corr.ang = conv(rin), conv(rout), conv(ang)
    mp.Fend.score.Rin, mp.Fend.score.Rout, mp.Fend.score.ang = conv(srin), conv(srout), conv(sang)
    mp.Fend.sides = conv(sides)
    if r.random() < 0.6:
        mp.Fend.shape = conv(shapes)
    else:
        shapes = ['circle']*nz
    clock, xo, eo = [0.]*nz, [0.]*nz, [0.]*nz
    used = []
    if r.random() < 0.5:
        clock = [float(v) for v in r.uniform(-90, 90, nz)]
        mp.Fend.clockAngDeg = conv(clock)
        used.append('clock')
    if r.random() < 0.5:
        xo = [float(v) for v in r.uniform(-6, 6, nz)]
        mp.Fend.xiOffset = conv(xo)
        used.append('xi')
    if r.random() < 0.5:
        eo = [float(v) for v in r.uniform(-6, 6, nz)]
        mp.Fend.etaOffset = conv(eo)
        used.append('eta')
    if r.random() < 0.5:
        mp.Fend.FOV = float(r.uniform(18, 22))
        used.append('FOV')
    mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.res = float(r.choice([6, 10]))
    mp.thput_eval_x, mp.thput_eval_y = [float(v) for v in r.uniform(-6, 6, 2)]
    falco.setup.falco_configure_dark_hole_region(mp)
    M = mp.Fend.corr.maskBool
    S = mp.Fend.score.maskBool
    n1, n0 = mp.Fend.Nxi, mp.Fend.Neta
    mon.check(M.shape == (n0, n1) and S.shape == M.shape and M.dtype == bool and S.dtype == bool, 'mask-shapes', 'mask sizes do not match the image size')
    x, y = axis_of(n1, mp.Fend.res, mp.centering), axis_of(n0, mp.Fend.res, mp.centering)
    mon.close(mp.Fend.xisDL, x, 'setup-xis', 'image coordinates', atol=1e-9)
    mon.close(mp.Fend.etasDL, y, 'setup-etas', 'image coordinates', atol=1e-9)
    X, Y = np.meshgrid(x, y)

    def union(rin, rout, ang):
        w = np.zeros(X.shape, bool)
        ok = np.ones(X.shape, bool)
        for k in range(nz):
            a, m = region(shapes[k], rin[k], rout[k], ang[k], sides[k], clock[k], X-xo[k], Y-eo[k])
            w |= a
            ok &= m > 1e-7
        return w, ok
    W, ok = union(rin, rout, ang)
    if 'FOV' in used or not (set(shapes) & {'rect', 'square', 'rectangle'}):
        pass
    mon.check(not ((M != W) & ok).any(), 'corr-union', 'correction mask is not the union of its zones', n=int(((M != W) & ok).sum()), used=used, nz=nz)
    W, ok = union(srin, srout, sang)
    mon.check(not ((S != W) & ok).any(), 'score-union', 'scoring mask is not the union of its zones', n=int(((S != W) & ok).sum()), used=used, nz=nz)
    mon.check(mp.Fend.corr.Npix == M.sum() and mp.Fend.score.Npix == S.sum(), 'npix', 'pixel counts')
    mon.equal(mp.Fend.scoreInCorr, S[M], 'score-in-corr', 'scoring index is not the scoring mask over correction pixels')
    e = mp.Fend.eval
    ex = axis_of(e.Nxi, e.res, mp.centering)
    ey = axis_of(e.Neta, e.res, mp.centering)
    mon.close(e.xisDL, ex, 'eval-xis', 'evaluation coordinates', atol=1e-9)
    mon.close(e.etasDL, ey, 'eval-etas', 'evaluation coordinates', atol=1e-9)
    mon.check(abs(e.Nxi/e.res - n1/mp.Fend.res) <= 2/e.res + 1e-9, 'eval-fov', 'evaluation image has another field of view')
    mon.close(e.RHOS, np.hypot(*np.meshgrid(ex-mp.thput_eval_x, ey-mp.thput_eval_y)), 'eval-rhos', 'distance from the throughput position', atol=1e-9)
    # spatial weights
    nst = int(r.integers(1, 3))
    mp.compact = falco.config.Object()
    mp.compact.star = falco.config.Object()
    mp.compact.star.count = nst
    mp.jac = falco.config.Object()
    mp.jac.star = falco.config.Object()
    mp.jac.star.weights = np.array([float(v) for v in r.uniform(0.2, 2, nst)])
    rho = np.hypot(X, Y)
    want = M.astype(float)
    kind = int(r.integers(4))
    if kind:
        rows = [[float(a), float(a + r.uniform(1, 4)), float(r.uniform(0, 9))] for a in r.uniform(0, 6, kind)]
        mp.WspatialDef = rows if kind != 1 or r.random() < 0.5 else rows[0]
        near = np.zeros(X.shape, bool)
        for a, b, w in rows:
            want = want*np.where((rho >= a) & (rho < b), np.sqrt(w), 1)
            near |= (abs(rho-a) < 1e-9) | (abs(rho-b) < 1e-9)
    elif r.random() < 0.5:
        mp.WspatialDef = []
    falco.setup.falco_set_spatial_weights(mp)
    mon.close(mp.Wspatial, want, 'wspatial', 'spatial weights are not the square roots of the intensity weights in their annuli', atol=1e-12)
    mon.check(mp.WspatialVec.shape == (int(M.sum()), nst), 'wspatial-vec-shape', 'weight vector shape')
    for k in range(nst):
        mon.close(mp.WspatialVec[:, k], mp.jac.star.weights[k]*want[M], 'wspatial-vec', 'per-star weight vector', atol=1e-12)
    mon.seen('setup', nz, mp.centering, sides, shapes, used, kind, nst)
    mon.sample(zones=nz, sides=sides, shapes=shapes, used=used, npix=int(M.sum()))


def run_case(case, mon):
    r = rng_of(case)
    (run_mask if case['kind'] == 'mask' else run_setup)(case, mon, r)
