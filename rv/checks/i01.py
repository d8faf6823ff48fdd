"""I01: simulated camera images are the weighted sum of their components."""
import numpy as np
import falco
from rv.core import rng_of
from rv import configs
from rv.checks.x01 import fleshed_proper

RULE = ('images of models over coronagraph, sub-bands, wavelengths per sub-band, polarization states (PROPER prescription), stars and workers recomputed from single '
        'fields of the full model with weights derived from the band; noise statistics over exposures, gains, dark current and read noise; expected images over modes, '
        'stars and DM steps; distinct = (kind, options)')
ASSUMPTIONS = ['noise is judged by 6.5-sigma tests on the mean and the variance of at least 30000 pixels']


def cases(tier, seed):
    q = tier == 'quick'
    n = dict(compose=10, proper=4, noise=8, noisy_image=3, expected=6, testbed=1) if q else \
        dict(compose=150, proper=60, noise=80, noisy_image=20, expected=90, testbed=2)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def band_weights(nsbp, nwp):
    """Weights of the sub-bands and of the wavelengths in one, from the layout of the samples over the band."""
    ws = np.ones(nsbp)
    if nwp == 1 and nsbp > 1:  # samples run from edge to edge of the band
        ws[[0, -1]] = 0.5
    wl = np.ones(nwp)
    if nwp > 1:
        wl[[0, -1]] = 0.5
    return ws/ws.sum(), wl/wl.sum()


def options(r):
    o = {}
    coro = str(r.choice(['LC', 'FLC', 'APLC', 'HLC', 'VC']))
    o['Nsbp'] = int(r.choice([1, 2, 3]))
    o['Nwpsbp'] = int(r.choice([1, 2, 3]))
    if coro == 'HLC' and o['Nwpsbp'] % 2 == 0:
        o['Nwpsbp'] = 3
    if coro == 'VC':
        o['Nsbp'], o['Nwpsbp'] = min(o['Nsbp'], 2), min(o['Nwpsbp'], 2)
    o['fracBW'] = 0.15
    if r.random() < 0.5:
        n = 2 if o['Nsbp']*o['Nwpsbp'] > 3 else int(r.integers(2, 4))
        o['stars'] = [(0., 0., 1.)] + [(float(r.uniform(-5, 5)), float(r.uniform(-5, 5)), float(r.uniform(0.1, 2))) for _ in range(n-1)]
        o['jac_star_weights'] = [float(x) for x in r.uniform(0.1, 1, n)]
    o['centering'] = 'interpixel' if (coro != 'VC' and r.random() < 0.3) else 'pixel'
    return coro, o


def full_intensity(mp, si, wi, star, pol=None):
    mv = falco.config.ModelVariables()
    mv.whichSource, mv.sbpIndex, mv.wpsbpIndex, mv.starIndex = 'star', si, wi, star
    if pol is not None:
        mp.full.polaxis = pol
    return np.abs(falco.model.full(mp, mv))**2


def compare_images(mp, mon, o, pols, coro):
    ns, nw = mp.Nsbp, mp.Nwpsbp
    ws, wl = band_weights(ns, nw)
    nstar = len(o.get('stars', [0]))
    shape = (int(mp.Fend.Neta), int(mp.Fend.Nxi))
    want = np.zeros((ns,) + shape)
    for si in range(ns):
        for wi in range(nw):
            for p in pols:
                for st in range(nstar):
                    want[si] += wl[wi]/len(pols)*full_intensity(mp, si, wi, st, p)
                    mon.count('single fields')
    for par in (False, True):
        mp.flagParallel = par
        with configs.quiet():
            sub = [np.asarray(falco.imaging.get_sbp_image(mp, si)) for si in range(ns)]
            tot = np.asarray(falco.imaging.get_summed_image(mp))
        for si in range(ns):
            mon.close(sub[si], want[si], 'image-subband', 'sub-band image is not the weighted sum of its wavelengths, polarizations and stars', rtol=1e-9,
                      coro=coro, opts=o, parallel=par)
        mon.close(tot, np.tensordot(ws, want, 1), 'image-band', 'band image is not the weighted sum of its sub-bands', rtol=1e-7, coro=coro, opts=o, parallel=par)
        mon.check(np.all(tot >= 0), 'image-positive', 'negative intensity', opts=o)
    mp.flagParallel = False


def run_case(case, mon):
    r = rng_of(case)
    kind = case['kind']
    if kind == 'compose':
        coro, o = options(r)
        mp, _ = configs.fleshed(coro, **o)
        configs.set_v(mp, r, 8.)
        compare_images(mp, mon, o, [getattr(mp.full, 'polaxis', 0)], coro)
        # a star's light is proportional to its weight
        if 'stars' in o:
            with configs.quiet():
                base = falco.imaging.get_summed_image(mp)
                one = np.zeros_like(base)
                keep = list(mp.star.weights)
                new = [float(x) for x in r.uniform(0.2, 3, len(keep))]
                parts = []
                for s in range(len(keep)):
                    mp.star.weights = [0.]*len(keep)
                    mp.star.weights[s] = 1.
                    parts.append(falco.imaging.get_summed_image(mp))
                mp.star.weights = new
                got = falco.imaging.get_summed_image(mp)
                mp.star.weights = keep
            one = sum(w*p for w, p in zip(keep, parts))
            mon.close(base, one, 'image-star-weights', 'stars do not add up by their weights', rtol=1e-9, coro=coro, opts=o)
            mon.close(got, sum(w*p for w, p in zip(new, parts)), 'image-star-weights', 'stars do not add up by their weights', rtol=1e-9, coro=coro, opts=o)
        # the unit of the images: the reference off-axis source peaks at 1
        if coro in ('LC', 'HLC', 'FLC', 'APLC') and 'stars' not in o:
            keep = (mp.star.xiOffsetVec, mp.star.etaOffsetVec)
            # normalised with these commands unchanged since set-up only when they are flat
            mp.dm1.V = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
            mp.dm2.V = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
            mp.star.xiOffsetVec, mp.star.etaOffsetVec = np.array([mp.source_x_offset_norm]), np.array([mp.source_y_offset_norm])
            im = [full_intensity(mp, s, w, 0).max() for s in range(mp.Nsbp) for w in range(mp.Nwpsbp)]
            mp.star.xiOffsetVec, mp.star.etaOffsetVec = keep
            mon.close(im, np.ones(len(im)), 'image-unit', 'reference source does not peak at 1', rtol=1e-9, coro=coro, opts=o)
        mon.seen(kind, coro, sorted(o.items(), key=str))
        mon.sample(kind=kind, coro=coro, opts=o)
    elif kind == 'proper':
        _, o = options(r)
        o.pop('centering')
        mp = fleshed_proper(o, r, 'i%d_%d' % (case['i'], case['seed']))
        configs.set_v(mp, r, 8.)
        mp.full.pol_conds = [[-2, -1, 1, 2], [-1, 1], [-2, 2], [10], [0], [5]][int(r.integers(0, 6))]
        compare_images(mp, mon, o, mp.full.pol_conds, 'proper')
        mon.seen(kind, tuple(mp.full.pol_conds), sorted(o.items(), key=str))
    elif kind == 'noise':
        run_noise(case, mon, r)
    elif kind == 'noisy_image':
        coro, o = 'LC', {'Nsbp': int(r.choice([1, 3])), 'Nwpsbp': int(r.choice([1, 3])), 'fracBW': 0.15}
        mp, _ = configs.fleshed(coro, Fend_res=6., **o)
        configs.set_v(mp, r, 20.)
        mp.flagParallel = bool(case['i'] % 2)
        det(mp, r)
        mp.detector.readNoiseStd = max(mp.detector.readNoiseStd, mp.detector.gain)
        with configs.quiet():
            mp.flagImageNoise = False
            clean = [falco.imaging.get_sbp_image(mp, s) for s in range(mp.Nsbp)]
            mp.flagImageNoise = True
            noisy = [falco.imaging.get_sbp_image(mp, s) for s in range(mp.Nsbp)]
            tot = falco.imaging.get_summed_image(mp)
        ws, _ = band_weights(mp.Nsbp, mp.Nwpsbp)
        mean = var = 0
        for s in range(mp.Nsbp):
            m, v = moments(mp, clean[s], s)
            z(mon, noisy[s], m, v, 'noise-in-subband-image', o)
            mean, var = mean + ws[s]*m, var + ws[s]**2*v
        z(mon, tot, mean, var, 'noise-in-band-image', o)
        mon.seen(kind, sorted(o.items()), mp.flagParallel)
    elif kind == 'expected':
        run_expected(case, mon, r)
    else:
        mp, _ = configs.fleshed('LC')
        mp.flagSim = False
        mon.raises(NotImplementedError, lambda: falco.imaging.get_sbp_image(mp, 0), 'testbed-not-implemented', 'testbed image')
        mon.seen(kind)


def det(mp, r):
    d = mp.detector
    d.gain = float(r.choice([1., 0.5, 2., 7.]))
    d.darkCurrentRate = float(r.choice([0., 0.015, 3.]))
    d.readNoiseStd = float(r.choice([0., 1.7, 12.]))
    d.peakFluxVec = 10**r.uniform(5, 9, mp.Nsbp)
    d.tExpVec = r.uniform(0.5, 20, mp.Nsbp)
    d.Nexp = int(r.choice([1, 2, 5]))


def rounding(d):
    """Variance added by rounding to counts: 1/12 when the read noise is wide against a count, 0 when electrons are whole counts."""
    if d.readNoiseStd == 0 and d.gain in (1., 0.5):
        return 0.
    return 1/12 if d.readNoiseStd >= 0.7*d.gain else None


def moments(mp, image, si):
    """Mean and variance of one noisy pixel of a stack of exposures, in normalized intensity."""
    d = mp.detector
    peak = d.peakFluxVec[si]*d.tExpVec[si]                 # counts per exposure at an intensity of one
    el = image*peak*d.gain                                  # electrons
    dark = d.darkCurrentRate*d.tExpVec[si]
    mean = (el + dark)/d.gain/peak
    var = ((el + dark + d.readNoiseStd**2)/d.gain**2 + rounding(d))/d.Nexp/peak**2
    return mean, var


def z(mon, got, mean, var, key, info):
    """The standardised residuals have mean 0 and variance 1."""
    x = (np.asarray(got) - mean)
    ok = var > 0
    t = x[ok]/np.sqrt(var[ok])
    n = t.size
    mon.count('noisy pixels', n)
    k4 = float(np.mean((t-t.mean())**4))
    mon.check(np.all(np.isfinite(t)), key, 'not finite', info=info)
    mon.check(abs(t.mean()) < 6.5/np.sqrt(n), key, 'noise has the wrong mean: %.3f sigma' % (t.mean()*np.sqrt(n)), info=info)
    mon.check(abs(t.var() - 1) < 6.5*np.sqrt(max(k4-1, 2.)/n), key, 'noise has the wrong variance %.4f' % t.var(), info=info)
    # neighbours are independent
    if n > 1000:
        c = float(np.mean(t[1:]*t[:-1]))
        mon.check(abs(c) < 6.5*np.sqrt(1./n)*max(1., k4/3), key, 'noise of neighbouring pixels is correlated', info=info, c=c)


def run_noise(case, mon, r):
    mp = falco.config.ModelParameters()
    mp.Nsbp = int(r.integers(1, 4))
    mp.detector = falco.config.Object()
    det(mp, r)
    if case['i'] % 3 == 0:  # keep the quantisation step away from the regime where it is not uniform
        mp.detector.readNoiseStd = max(mp.detector.readNoiseStd, 2*mp.detector.gain)
    elif rounding(mp.detector) is None:
        mp.detector.readNoiseStd = mp.detector.gain
    for si in range(mp.Nsbp):
        ni = 10**r.uniform(-9, -2)
        im = ni*r.uniform(0.5, 1.5, (150, 230))
        peak = mp.detector.peakFluxVec[si]*mp.detector.tExpVec[si]
        keep = im.copy()
        s0 = int(r.integers(1 << 30))
        np.random.seed(s0)
        a = falco.imaging.add_noise_to_subband_image(mp, im, si)
        b = falco.imaging.add_noise_to_subband_image(mp, im, si)
        mon.equal(im, keep, 'noise-keeps-input', 'image modified')
        mon.check(np.shape(a) == im.shape, 'noise-shape', 'shape')
        mean, var = moments(mp, im, si)
        info = dict(gain=mp.detector.gain, dark=mp.detector.darkCurrentRate, read=mp.detector.readNoiseStd, nexp=mp.detector.Nexp,
                    ni=ni, electrons=ni*peak*mp.detector.gain)
        z(mon, a, mean, var, 'noise-statistics', info)
        z(mon, a-b, 0*mean, 2*var, 'noise-independent', info)
        q = np.asarray(a)*peak*mp.detector.Nexp
        mon.close(q, np.round(q), 'noise-quantized', 'counts are not whole numbers', rtol=1e-9, atol=1e-6, **info)
        mon.seen('noise', sorted(info.items()))
    mon.sample(kind='noise', **info)


def run_expected(case, mon, r):
    coro, o = options(r)
    o['Nwpsbp'] = 1
    if coro == 'VC':
        coro = 'LC'
    if r.random() < 0.5:
        o['zerns'] = [[1, 3, 5], [1, 2]][int(r.integers(2))]
        o['Zcoef'] = 1e-9*np.ones(len(o['zerns']))
    if r.random() < 0.4:
        o['dm_ind'] = [int(r.integers(1, 3))]
    mp, _ = configs.fleshed(coro, **o)
    configs.set_v(mp, r, 8.)
    d = falco.config.Object()
    d.dDM1V, d.dDM2V = 5*r.standard_normal((12, 12)), 5*r.standard_normal((12, 12))
    rails = r.random() < 0.4
    if rails:   # the new command reaches the limits of the mirrors, the one before does not
        lim = float(r.uniform(3., 9.))
        for dm, a in ((mp.dm1, 'dDM1V'), (mp.dm2, 'dDM2V')):
            bias = float(r.uniform(0, 40))
            dm.biasMap = bias*np.ones((12, 12))
            dm.Vmin, dm.Vmax = bias-lim, bias+lim
            dm.V = np.clip(0.4*lim*r.standard_normal((12, 12)), -0.9*lim, 0.9*lim) + getattr(d, a)
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    mask = np.asarray(mp.Fend.corr.maskBool)
    n = int(mask.sum())
    cvar = falco.config.Object()
    cvar.Eest = 1e-3*(r.standard_normal((n, mp.jac.Nmode)) + 1j*r.standard_normal((n, mp.jac.Nmode)))
    keep = cvar.Eest.copy()
    with configs.quiet():
        got = falco.imaging.get_expected_summed_image(mp, cvar, d)
    mon.equal(mp.dm1.V, V[0], 'expected-keeps-commands', 'DM1 command changed')
    mon.equal(mp.dm2.V, V[1], 'expected-keeps-commands', 'DM2 command changed')
    mon.equal(cvar.Eest, keep, 'expected-keeps-estimate', 'estimate changed')
    ws, _ = band_weights(mp.Nsbp, 1)
    want = np.zeros(mask.shape)
    steps = {1: d.dDM1V if 1 in mp.dm_ind else 0, 2: d.dDM2V if 2 in mp.dm_ind else 0}
    for m in range(mp.jac.Nmode):
        if mp.jac.zern_inds[m] != 1:
            continue
        mv = falco.config.ModelVariables()
        mv.whichSource, mv.sbpIndex, mv.starIndex, mv.zernIndex = 'star', mp.jac.sbp_inds[m], mp.jac.star_inds[m], 1
        for dm, v in ((mp.dm1, V[0]), (mp.dm2, V[1])):
            dm.V = np.clip(v, dm.Vmin-dm.biasMap, dm.Vmax-dm.biasMap)
            dm.pinned, dm.Vpinned = np.array([]), np.array([])
        new = falco.model.compact(mp, mv)[mask]
        mp.dm1.V, mp.dm2.V = V[0]-steps[1], V[1]-steps[2]
        old = falco.model.compact(mp, mv)[mask]
        mp.dm1.V, mp.dm2.V = V[0].copy(), V[1].copy()
        want[mask] += ws[mv.sbpIndex]*np.abs(keep[:, m] + new - old)**2
        mon.count('modes in expected images')
        mon.count('railed modes in expected images', rails)
    mon.close(got, want, 'expected-image', 'expected image is not the estimate plus the modelled change', rtol=1e-9, coro=coro, opts=o)
    mon.seen('expected', coro, sorted(o.items(), key=str))
