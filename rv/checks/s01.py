"""S01: set-up of wavelengths, weights, control modes and plane coordinates."""
import warnings

import numpy as np
import falco
from rv.core import rng_of
from rv import configs

RULE = ('spectral sampling over sub-bandpass/wavelength counts, bandwidths and centre wavelengths; modal weights over Zernike lists, orders and '
        'zero coefficients and stars; complete workspaces over coronagraph, centering and resolution; distinct = option tuples')


def cases(tier, seed):
    out = []
    q = tier == 'quick'
    for i in range(24 if q else 160):
        out.append(dict(kind='spectrum', i=i, seed=seed))
        out.append(dict(kind='modes', i=i, seed=seed))
    for i in range(16 if q else 120):
        out.append(dict(kind='workspace', i=i, seed=seed))
    return out


def run_spectrum(mon, r):
    for _ in range(8):
        mp = falco.config.ModelParameters()
        mp.Nsbp = int(r.choice([1, 1, 2, 3, 4, 5, 7, 9]))
        mp.Nwpsbp = int(r.choice([1, 1, 2, 3, 5, 7]))
        mp.fracBW = float(r.choice([0.2, 0.1, 0.036, 0.01, 1e-3, 1e-4, 3e-5, r.uniform(1e-3, 0.3)]))
        mp.lambda0 = float(r.choice([575e-9, 550e-9, 1.65e-6, r.uniform(3e-7, 2e-6)]))
        mp.flagSim = bool(r.random() < 0.7)
        mp.full = falco.config.Object()
        falco.setup.falco_set_spectral_properties(mp)
        l0, bw, ns, nw = mp.lambda0, mp.fracBW, mp.Nsbp, mp.Nwpsbp
        info = dict(Nsbp=ns, Nwpsbp=nw, bw=bw, l0=l0, sim=mp.flagSim)
        c = np.asarray(mp.sbp_centers).ravel()
        w = np.asarray(mp.sbp_weights).ravel()
        mon.check(c.size == ns and w.size == ns, 'sbp-count', 'one centre and weight per sub-bandpass', **info)
        lo, hi = l0*(1-bw/2), l0*(1+bw/2)
        mon.check(np.all(c >= lo*(1-1e-12)) and np.all(c <= hi*(1+1e-12)) and np.all(np.diff(c) > 0), 'sbp-inside', 'sub-bandpass centres', **info)
        mon.close(np.mean(c), l0, 'sbp-mean', 'centres are not symmetric about the central wavelength', rtol=1e-12, **info)
        if nw == 1 and mp.flagSim:
            want = np.linspace(lo, hi, ns) if ns > 1 else np.array([l0])
            ww = np.ones(ns)
            if ns > 1:
                ww[0] = ww[-1] = 0.5
        else:
            want = l0*(1 + bw*((np.arange(ns)+0.5)/ns - 0.5))
            ww = np.ones(ns)
        mon.close(c, want, 'sbp-centers', 'sub-bandpass centres', rtol=1e-12, **info)
        mon.close(w, ww/ww.sum(), 'sbp-weights', 'sub-bandpass weights', rtol=1e-12, **info)
        mon.check(0 <= mp.si_ref < ns and (ns % 2 == 0 or abs(c[mp.si_ref]-l0) <= 1e-12*l0), 'si-ref', 'reference index is not central', **info)
        mon.check(0 <= mp.wi_ref < nw, 'wi-ref', 'reference index', **info)
        # full-model wavelengths
        mat = np.asarray(mp.full.lambdasMat)
        mon.check(mat.shape == (ns, nw), 'lambdasMat', 'shape', **info)
        off = (np.linspace(-0.5, 0.5, nw) if nw > 1 else np.array([0.]))*l0*bw/ns
        mon.close(mat, c[:, None] + off[None, :], 'lambdas-in-band', 'wavelengths do not span their sub-bandpass', rtol=1e-12, **info)
        lw = np.asarray(mp.full.lambda_weights).ravel()
        lww = np.ones(nw)
        if nw > 1:
            lww[0] = lww[-1] = 0.5
        mon.close(lw, lww/lww.sum(), 'lambda-weights', 'wavelength weights', rtol=1e-12, **info)
        lam = np.asarray(mp.full.lambdas).ravel()
        wall = np.asarray(mp.full.lambda_weights_all).ravel()
        mon.check(lam.size == wall.size == mp.full.NlamUnique, 'unique-size', 'unique wavelengths and weights', **info)
        mon.close(wall.sum(), 1., 'total-weight', 'the weights of all distinct wavelengths do not sum to one', rtol=1e-12, **info)
        mon.close(np.sum(wall*lam), l0, 'mean-wavelength', 'weighted mean wavelength', rtol=3e-6*max(bw, 1e-6)+2e-12/l0, **info)
        # cumulative weight: every sample counted once at its own wavelength
        prod = (ww/ww.sum())[:, None]*(lww/lww.sum())[None, :]
        allw = mat.ravel()
        for edge in np.linspace(lo, hi, 7)[1:-1]:
            if np.min(abs(allw-edge)) < 3e-12:
                continue
            mon.close(wall[lam < edge].sum(), prod.ravel()[allw < edge].sum(), 'cumulative-weight', 'spectral weight is misplaced', atol=1e-12, **info)
        iu = np.asarray(mp.full.indsLambdaUnique).ravel()
        ii = np.asarray(mp.full.indsLambdaMat)
        mon.check(iu.size == lam.size and ii.shape == (ns*nw, 2), 'index-shape', 'index tables', **info)
        mon.close(np.array([mat[ii[k, 0], ii[k, 1]] for k in iu]), lam, 'index-table', 'index table points to other wavelengths', rtol=1e-15, **info)
        mon.check(len({(int(a), int(b)) for a, b in ii}) == ns*nw, 'index-complete', 'index table misses a sample', **info)
        mon.seen('spectrum', ns, nw, mp.flagSim, bw < 1e-3)


def run_modes(mon, r):
    for _ in range(8):
        mp = falco.config.ModelParameters()
        ns = mp.Nsbp = int(r.integers(1, 8))
        mp.si_ref = ns//2
        mp.estimator = str(r.choice(['perfect', 'pairwise', 'Perfect', 'pwp-bp']))
        nst = int(r.integers(1, 4))
        mp.compact = falco.config.Object()
        mp.compact.star = falco.config.Object()
        mp.compact.star.count = nst
        mp.jac = falco.config.Object()
        z = [1] + [int(v) for v in r.choice(np.arange(2, 12), int(r.integers(0, 5)), replace=False)]
        order = int(r.integers(3))
        if order == 1:
            z = [z[k] for k in r.permutation(len(z))]
        elif order == 2:
            z = sorted(z)
        zc = [float(v) for v in r.uniform(0.1e-9, 3e-9, len(z))]
        for k in range(len(z)):
            if z[k] != 1 and r.random() < 0.25:
                zc[k] = 0.
        if len(z) == 1 and r.random() < 0.3:
            mp.jac.zerns, mp.jac.Zcoef = 1, 1e-9
        else:
            mp.jac.zerns, mp.jac.Zcoef = list(z), list(zc)
        falco.setup.falco_set_jacobian_modal_weights(mp)
        info = dict(zerns=z, zcoef=zc, Nsbp=ns, est=mp.estimator, stars=nst)
        W = np.zeros((ns, len(z)))
        for k, j in enumerate(z):
            rows = range(ns) if j == 1 else {0, ns//2, ns-1}
            for s in rows:
                W[s, k] = 1.
            if mp.estimator.lower() == 'perfect' and ns > 1:
                W[0, k] *= 0.5
                W[-1, k] *= 0.5
            W[:, k] /= W[:, k].sum()
            if zc[k] == 0 and j != 1:
                W[:, k] = 0
        mon.close(mp.jac.weightMat, W, 'weight-matrix', 'mode weights', atol=1e-12, **info)
        mon.close(np.atleast_1d(mp.jac.Zcoef), np.array([1. if j == 1 else c for j, c in zip(z, zc)]), 'zcoef', 'Zernike coefficients', rtol=1e-15, **info)
        want = {(s, z[k], st): W[s, k] for s in range(ns) for k in range(len(z)) for st in range(nst) if W[s, k] > 0}
        J = mp.jac
        mon.check(J.Nmode == len(want) and J.NmodePerStar*nst == J.Nmode, 'mode-count', 'number of control modes', got=J.Nmode, want=len(want), **info)
        got = {}
        for m in range(J.Nmode):
            got[(int(J.sbp_inds[m]), int(J.zern_inds[m]), int(J.star_inds[m]))] = float(J.weights[m])
        mon.check(set(got) == set(want), 'mode-set', 'control modes are not exactly the weighted (sub-bandpass, Zernike, star) combinations', **info)
        mon.check(all(abs(got[k]-want[k]) < 1e-12 for k in got if k in want), 'mode-weights', 'a mode carries the weight of another', **info)
        mon.check(len(J.weights) == J.Nmode == len(J.sbp_inds) == len(J.zern_inds) == len(J.star_inds), 'mode-vectors', 'mode vector lengths', **info)
        mon.seen('modes', tuple(z), ns, nst, mp.estimator, tuple(c == 0 for c in zc))
    mp.jac.zerns, mp.jac.Zcoef = [2, 3], [1e-9, 1e-9]
    mon.raises(ValueError, lambda: falco.setup.falco_set_jacobian_modal_weights(mp), 'needs-piston', 'list without piston accepted')
    mp.jac.zerns, mp.jac.Zcoef = [1, 3, 3], [1, 1e-9, 1e-9]
    mon.raises(ValueError, lambda: falco.setup.falco_set_jacobian_modal_weights(mp), 'no-repeats', 'repeated Zernike accepted')
    mon.raises(TypeError, lambda: falco.setup.falco_set_jacobian_modal_weights({}), 'needs-mp', 'wrong object accepted')


def run_workspace(mon, r):
    coro = str(r.choice(['LC', 'FLC', 'VC', 'APLC']))
    cen = str(r.choice(['pixel', 'interpixel']))
    nb = int(2*r.integers(14, 24))
    o = dict(centering=cen, Nbeam=nb, Nsbp=int(r.integers(1, 4)), Nwpsbp=int(r.choice([1, 1, 3])), Nbeam_full=int(nb + 2*r.integers(-4, 8)),
             DM1stop=bool(r.random() < .5), DM2stop=bool(r.random() < .5), d_P2_dm1=float(r.choice([0, 0.02])),
             d_dm1_dm2=float(r.choice([0.05, 0.5, 2.0])), dm_ind=[[1, 2], [1], [2], 1][int(r.integers(4))], F3_res_full=int(r.integers(2, 5)),
             dead1=[int(v) for v in r.choice(144, 3, replace=False)])
    if r.random() < 0.3:
        o['stars'] = [(0., 0., 1.), (2., 1., 0.3)]
    mp = configs.build(coro, **o)
    # a Lyot stop array with no padding at all
    if r.random() < 0.4:
        n = mp.P4.compact.mask.shape[0]
        mp.P4.compact.mask = np.asarray(falco.util.pad_crop(mp.P4.compact.mask, nb//2*2 - 2*int(r.integers(0, nb//6))))
    sumc, sumf = mp.P4.compact.mask.sum(), mp.P4.full.mask.sum()
    with configs.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = falco.setup.flesh_out_workspace(mp)
    info = dict(coro=coro, **o)
    mon.close(np.sum(mp.P4.compact.croppedMask), sumc, 'lyot-crop', 'cropping removes light from the Lyot stop', atol=2e-7*4, rtol=1e-12, **info)
    mon.close(np.sum(mp.P4.full.croppedMask), sumf, 'lyot-crop', 'cropping removes light from the Lyot stop', atol=2e-7*4, rtol=1e-12, **info)
    for nm, p in (('compact', mp.P4.compact), ('full', mp.P4.full)):
        mon.check(p.croppedMask.shape == (p.Narr, p.Narr), 'lyot-crop-size', 'cropped stop size', **info)
        ref = falco.util.pad_crop(p.mask, p.Narr)
        mon.equal(p.croppedMask, ref, 'lyot-crop-values', 'cropped stop is not the centre of the stop', **info)

    def ax(n):
        return np.arange(n) - n//2 + (0.5 if cen == 'interpixel' else 0)
    for nm in ('compact', 'full'):
        P1, P2 = mp.P1[nm], mp.P2[nm]
        mon.close(P2.dx, mp.P2.D/P1.Nbeam, 'pupil-dx', 'pupil sampling', rtol=1e-12)
        mon.close(P2.xsDL, ax(P1.Narr)/P1.Nbeam, 'pupil-axis', 'pupil coordinates', atol=1e-12, plane=nm, **info)
        mon.check(P1.mask.shape == (P1.Narr, P1.Narr) and P1.Narr % 2 == 0, 'pupil-square', 'pupil array', **info)
        if coro != 'VC':
            F3 = mp.F3[nm]
            odd = F3.Nxi % 2 == 1
            want = (np.arange(F3.Nxi)-(F3.Nxi-1)/2 if odd else ax(F3.Nxi))/F3.res
            mon.close(F3.xisDL, want, 'fpm-axis', 'focal-plane coordinates', atol=1e-12, plane=nm, **info)
            mon.close(F3.etasDL, want, 'fpm-axis', 'focal-plane coordinates', atol=1e-12, plane=nm, **info)
            mon.close(F3.dxi, mp.fl*mp.lambda0/mp.P2.D/F3.res, 'fpm-dxi', 'focal-plane sampling', rtol=1e-12, plane=nm, **info)
    mon.close(mp.Fend.dxi, mp.fl*mp.lambda0/mp.P4.D/mp.Fend.res, 'fend-dxi', 'image sampling', rtol=1e-12)
    mon.close(mp.Fend.eval.dxi, mp.fl*mp.lambda0/mp.P4.D/mp.Fend.eval.res, 'fend-dxi', 'image sampling', rtol=1e-12)
    # DM planes: padding satisfies the angular-spectrum sampling rule and holds the DM
    for nm, npad, dx, lams in (('compact', mp.compact.NdmPad, mp.P2.compact.dx, mp.sbp_centers), ('full', mp.full.NdmPad, mp.P2.full.dx, mp.full.lambdas)):
        need = np.min(lams)*max(abs(mp.d_dm1_dm2), abs(mp.d_P2_dm1))/dx**2
        mon.check(npad >= need*(1-1e-9) and npad == int(npad) and int(npad) % 2 == 0, 'dm-padding', 'DM plane is padded too little to propagate between the DMs', npad=npad, need=need, plane=nm, **info)
    for k, dm in ((1, mp.dm1), (2, mp.dm2)):
        act = k in np.atleast_1d(o['dm_ind'])
        mon.check(dm.Nele == (dm.Nact**2 if act else 0), 'dm-nele', 'number of used actuators', got=dm.Nele, **info)
        mon.check(dm.V.shape == (dm.Nact, dm.Nact) and not dm.V.any(), 'dm-v0', 'initial commands', **info)
        want = np.zeros(dm.Nact**2, bool)
        if k == 1:
            want[o['dead1']] = True
        mon.equal(np.asarray(dm.dead_map).ravel(), want, 'dead-map', 'dead actuator map', **info)
        stop = o['DM%dstop' % k]
        if stop:
            for nm, dx in (('compact', mp.P2.compact.dx), ('full', mp.P2.full.dx)):
                m = dm[nm].mask
                area = m.sum()*dx**2
                want = np.pi/4*dm.Dstop**2
                mon.close(area, want, 'dm-stop-area', 'DM stop is not a circle of the requested diameter', rtol=0.01, dm=k, plane=nm, **info)
    # stored history arrays
    mon.check(out.InormHist.shape == (mp.Nitr+1,) and out.thput.shape == (mp.Nitr+1,), 'history-size', 'history arrays', **info)
    lamD_mas = mp.lambda0/mp.P1.D*180/np.pi*3600e3
    mon.close(mp.mas2lam0D*lamD_mas, 1., 'mas', 'milliarcseconds conversion', rtol=1e-12)
    # normalisation: the peak of the offset source is one
    mon.check(np.all(np.asarray(mp.Fend.compact.I00) > 0) and np.all(np.asarray(mp.Fend.full.I00) > 0), 'norm-positive', 'normalisation', **info)
    mon.seen('workspace', coro, cen, nb, o['Nbeam_full'], o['Nsbp'], o['Nwpsbp'], str(o['dm_ind']))
    mon.sample(coro=coro, centering=cen, Nbeam=nb, NdmPad=mp.compact.NdmPad)


def run_case(case, mon):
    r = rng_of(case)
    with configs.quiet():
        {'spectrum': run_spectrum, 'modes': run_modes, 'workspace': run_workspace}[case['kind']](mon, r)
