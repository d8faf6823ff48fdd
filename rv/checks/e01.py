"""E01: the perfect estimator returns the full model's fields."""
import numpy as np
import falco
from rv.core import rng_of
from rv import configs
from rv.checks.x01 import fleshed_proper
from rv.checks.i01 import band_weights, options

RULE = ('perfect estimates of models over coronagraph, sub-bands, wavelengths, stars, Zernike modes, polarization states, dark-hole shapes and workers, compared mode by mode '
        'with single fields of the full model; distinct = (coronagraph, options)')


def cases(tier, seed):
    n = dict(model=12, proper=7) if tier == 'quick' else dict(model=150, proper=70)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


MEAN_POL = [([-2, -1, 1, 2], 10), ([10], 10), ([-1, 1], 5), ([5], 5), ([2, -2], 6), ([6], 6), ([0], 0)]


def run_case(case, mon):
    r = rng_of(case)
    coro, o = options(r)
    o['parallel'] = bool(r.random() < 0.4)
    if r.random() < 0.3:
        o['sides'] = str(r.choice(['top', 'right', 'bottom']))
    pol = None
    if case['kind'] == 'proper':
        o.pop('centering')
        mp = fleshed_proper(o, r, 'e%d_%d' % (case['i'], case['seed']))
        conds, pol = MEAN_POL[case['i'] % len(MEAN_POL)]
        mp.full.pol_conds = list(conds)
    else:
        if r.random() < 0.5 and coro != 'VC':
            z = [1] + sorted(int(x) for x in r.choice(np.arange(2, 9), size=int(r.integers(1, 3)), replace=False))
            o['zerns'] = z
            o['Zcoef'] = 1e-9*r.uniform(0.5, 9, len(z))
        mp, _ = configs.fleshed(coro, **o)
    configs.set_v(mp, r, 8.)
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    E0 = np.array(mp.P1.full.E)
    _, wl = band_weights(mp.Nsbp, mp.Nwpsbp)
    mask = np.asarray(mp.Fend.corr.maskBool)
    ev = falco.config.Object()
    ev.Itr = 0
    mp.estimator = 'perfect'
    with configs.quiet():
        falco.est.wrapper(mp, ev, None)
    mon.equal(mp.dm1.V, V[0], 'perfect-keeps-state', 'DM1 command changed')
    mon.equal(mp.dm2.V, V[1], 'perfect-keeps-state', 'DM2 command changed')
    mon.equal(mp.P1.full.E, E0, 'perfect-keeps-state', 'entrance pupil field changed')
    mon.check(np.shape(ev.Eest) == (mask.sum(), mp.jac.Nmode), 'perfect-shape', 'shape %s' % (np.shape(ev.Eest),), opts=o)
    want_im = np.zeros(mask.shape + (mp.Nsbp,))
    if pol is not None:
        mp.full.polaxis = pol
    scale = 0
    for m in range(mp.jac.Nmode):
        mv = falco.config.ModelVariables()
        mv.whichSource = 'star'
        mv.sbpIndex, mv.zernIndex, mv.starIndex = mp.jac.sbp_inds[m], mp.jac.zern_inds[m], mp.jac.star_inds[m]
        E = 0
        for wi in range(mp.Nwpsbp):
            mv.wpsbpIndex = wi
            E = E + wl[wi]*falco.model.full(mp, mv)
            mon.count('single fields')
        mon.close(ev.Eest[:, m], E[mask], 'perfect-field', 'estimate is not the field of the full model', rtol=1e-9, coro=coro, opts=o, mode=m, pol=pol)
        if mv.zernIndex == 1:
            want_im[:, :, mv.sbpIndex] += np.abs(E)**2
        scale = max(scale, np.abs(E).max())
    if mp.Nwpsbp == 1:
        mon.close(np.asarray(ev.imageArray)[:, :, 0, :], want_im, 'perfect-image', 'image array is not the summed intensity of the stars', rtol=1e-9, coro=coro, opts=o)
    mon.check(np.shape(ev.IincoEst) == np.shape(ev.Eest) and not np.any(ev.IincoEst), 'perfect-incoherent', 'incoherent light reported', opts=o)
    with configs.quiet():
        im = falco.imaging.get_summed_image(mp)
    mon.close(ev.Im, im, 'perfect-im', 'current image is not the summed image', rtol=1e-7, coro=coro, opts=o)
    if pol is not None:
        mp.full.pol_conds = [[3], [-2, 1], [1]][case['i'] % 3]
        mon.raises(ValueError, lambda: falco.est.perfect(mp, falco.config.Object()), 'perfect-bad-pol', 'impossible set of polarizations')
    mon.seen(coro, case['kind'], sorted(o.items(), key=str), pol)
    mon.sample(coro=coro, opts=o, modes=int(mp.jac.Nmode), pol=pol)
