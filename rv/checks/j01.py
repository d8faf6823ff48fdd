"""J01: the control Jacobian is the derivative of the compact model."""
import numpy as np
import falco
from rv.core import rng_of, Skip
from rv import configs

RULE = ('control Jacobians of LC/FLC/APLC/vortex models over centering, wavelengths, Zernike modes, stars, DM tilts/offsets/orientations, relays, stops, '
        'apodizers, actuator subsets, ties, dead actuators and weights; randomly chosen columns compared with central differences of the compact '
        'model; distinct = (options, DM, mode)')
ASSUMPTIONS = ['tolerance 4e-4 of the largest column (3e-3 with tilted DMs, 6e-3 for the vortex), several times what the unchanged code shows: the '
               'Jacobian uses cropped influence functions and FFT vortex propagation']


def cases(tier, seed):
    q = tier == 'quick'
    out = []
    for i in range(15 if q else 200):
        out.append(dict(kind='lyot', i=i, seed=seed))
    for i in range(4 if q else 40):
        out.append(dict(kind='vortex', i=i, seed=seed))
    for i in range(3 if q else 40):
        out.append(dict(kind='normalized', i=i, seed=seed))
    return out


def options(r, kind, i):
    o = {}
    coro = 'VC' if kind == 'vortex' else str(r.choice(['LC', 'FLC', 'APLC', 'HLC']))
    f = i % 13
    o['centering'] = 'interpixel' if r.random() < 0.35 else 'pixel'
    if f in (1, 9):
        o['tilt1'] = tuple(float(x) for x in r.uniform(-20, 20, 3))
        o['tilt2'] = tuple(float(x) for x in r.uniform(-20, 20, 3))
        o['flagZYX'] = bool(r.random() < 0.5)
    if f in (2, 9, 11) or r.random() < 0.25:
        for k in (1, 2):
            o['orient%d' % k] = str(r.choice(['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270']))
    if f in (3, 10):
        n = 12
        for k in (1, 2):
            o['dmc%d' % k] = tuple(float(x) for x in n/2-0.5+r.uniform(-0.8, 0.8, 2))
    if f in (4, 12) and kind != 'vortex':
        z = [1] + sorted(int(x) for x in r.choice(np.arange(2, 12), size=2, replace=False))
        o['zerns'] = z
        o['Zcoef'] = 1e-9*r.uniform(0.5, 20, 3)
    if f in (5, 10):
        o['stars'] = [(0., 0., 1.), (float(r.uniform(-5, 5)), float(r.uniform(-5, 5)), float(r.uniform(0.1, 1)))]
        o['jac_star_weights'] = [1., float(r.uniform(0.1, 1))]
    if f in (6, 11) or r.random() < 0.15:
        o['DM1stop'], o['DM2stop'] = True, True
        o['Dstop'] = 12e-3*float(r.uniform(0.85, 0.99))
    if f in (7, 12, 9) or r.random() < 0.6:
        o['relays'] = tuple(int(x) for x in r.integers(0, 3, 4))
        o['flagRotation'] = bool(r.random() < 0.7)
    if f in (8, 3) or r.random() < 0.25:
        o['d_P2_dm1'] = float(r.choice([0., 0.03, -0.02]))
        o['d_dm1_dm2'] = float(r.uniform(0.02, 0.1))
    if f in (0, 8):
        o['dm_weights'] = tuple(float(x) for x in r.uniform(0.3, 2, 2))
        for k in (1, 2):
            o['VtoH%d' % k] = 1e-9*r.uniform(0.5, 3, (12, 12))
    if f == 2:
        o['dm_ind'] = [int(r.integers(1, 3))]
    if r.random() < 0.3:
        o['Nsbp'] = 2 if kind == 'vortex' else 3
        o['fracBW'] = 0.2
    if r.random() < 0.25:
        o['inf_sign'] = '-'
    if kind == 'vortex':
        if i % 3 == 2:
            o['Nsbp'], o['fracBW'] = 2, 0.2
        o['charge'] = int(r.choice([4, 6, 8]))
        o['mftToVortex'] = bool(r.random() < 0.4)
        o['apod'] = bool(r.random() < 0.3)
    if r.random() < 0.3 and kind != 'vortex':
        o['FPMampFac'] = float(r.uniform(0, 0.2))
    if kind == 'normalized':
        o['minimizeNI'] = True
        o['centering'] = 'pixel'
        o.pop('stars', None)
        o.pop('jac_star_weights', None)
        o.pop('zerns', None)
        o.pop('Zcoef', None)
    if coro != 'VC' and r.random() < 0.2:
        o['layout'] = 'fpm_scale'
    if coro == 'FLC' and r.random() < 0.5 and kind != 'normalized':
        o['Nbeam_P4'] = int(r.choice([30, 36, 50]))
    return coro, o


def modvar(mp, m):
    mv = falco.config.ModelVariables()
    mv.whichSource = 'star'
    mv.sbpIndex, mv.zernIndex, mv.starIndex = mp.jac.sbp_inds[m], mp.jac.zern_inds[m], mp.jac.star_inds[m]
    return mv


def run_case(case, mon):
    r = rng_of(case)
    kind, i = case['kind'], case['i']
    coro, o = options(r, kind, i)
    mp, _ = configs.fleshed(coro, **o)
    if kind == 'vortex' and i % 3 == 2:
        # the sub-band centres fall half way: interpolation gives charges 4 and 8 (integers, so no branch cut)
        lam = mp.lambda0*np.array([0.90, 1.0, 1.10])
        mp.F3.VortexCharge = np.array([2., 6., 10.])
        mp.F3.VortexCharge_lambdas = lam
    strength = float(r.choice([0., 5., 20., 40.]))
    configs.set_v(mp, r, min(strength, 8.) if kind == 'normalized' else strength)
    dms = {k: d for k, d in ((1, mp.dm1), (2, mp.dm2)) if k in np.atleast_1d(mp.dm_ind)}
    special = {}
    for k, dm in dms.items():
        n = dm.Nact**2
        m = r.random((dm.Nact, dm.Nact))
        yy, xx = np.mgrid[:dm.Nact, :dm.Nact] - (dm.Nact-1)/2
        inside = np.flatnonzero((np.hypot(xx, yy) < 5.0).ravel())
        pick = np.sort(r.choice(inside, size=7, replace=False))
        dm.act_ele = pick
        dm.Nele = pick.size
        sp = dict(dead=[], tied=[])
        if i % 3 == 0:
            a = r.permutation(pick)
            sp['dead'] = [int(a[0])]
            dm.dead = np.array(sp['dead'])
            dm.dead_map = np.zeros((dm.Nact, dm.Nact), dtype=bool)
            dm.dead_map.flat[sp['dead']] = True
            sp['tied'] = [(int(a[1]), int(a[2])), (int(a[3]), int(a[4]))]
            dm.tied = np.array(sp['tied'])
            dm.V.flat[sp['dead']] = 0.
            for p, q in sp['tied']:
                dm.V.flat[q] = dm.V.flat[p]
        special[k] = sp
    V0 = {k: dm.V.copy() for k, dm in dms.items()}
    masks = [np.array(x).copy() for x in (mp.P1.compact.mask, mp.P1.compact.E, mp.P4.compact.croppedMask)]
    with configs.quiet():
        J = falco.model.jacobian(mp)
    for k, dm in dms.items():
        mon.equal(dm.V, V0[k], 'jac-keeps-commands', 'computing the Jacobian changed a valid DM command', opts=o)
    for a, b in zip(masks, (mp.P1.compact.mask, mp.P1.compact.E, mp.P4.compact.croppedMask)):
        mon.equal(a, b, 'jac-keeps-inputs', 'computing the Jacobian changed an input array', opts=o)
    tilted = any(t != 0 for k in (1, 2) for t in o.get('tilt%d' % k, (0,)))
    tol = 3e-3 if tilted else (6e-3 if coro == 'VC' else 4e-4)
    maskb = np.asarray(mp.Fend.corr.maskBool)
    npx = int(maskb.sum())
    h = 0.05

    def field(m):
        mv = modvar(mp, m)
        E = falco.model.compact(mp, mv)
        if kind == 'normalized':
            mvp = modvar(mp, m)
            Ep = falco.model.compact(mp, mvp, useFPM=False)
            if m not in peaks:
                peaks[m] = np.unravel_index(np.argmax(np.abs(Ep)), Ep.shape)
            E = E/Ep[peaks[m]]
        return E[maskb]
    peaks = {}
    if kind == 'normalized':
        for m in range(mp.jac.Nmode):
            field(m)
            if max(abs(peaks[m][0]-mp.Fend.Neta//2), abs(peaks[m][1]-mp.Fend.Nxi//2)) > 0:
                raise Skip()  # so aberrated that the peak is not where the star is: outside what is claimed
    for k, dm in dms.items():
        G = np.asarray(J.G1 if k == 1 else J.G2)
        mon.check(G.shape == (npx, dm.act_ele.size, mp.jac.Nmode), 'jac-shape', 'Jacobian shape %s' % (G.shape,), opts=o, dm=k)
        sp = special[k]
        second = {q: p for p, q in sp['tied']}
        first = {p: q for p, q in sp['tied']}
        for m in range(mp.jac.Nmode):
            peak = np.sqrt(np.mean(np.abs(G[:, :, m])**2, axis=0)).max()
            mon.check(np.isfinite(peak) and peak > 0, 'jac-finite', 'Jacobian is empty or not finite', opts=o, dm=k)
            for idx, a in enumerate(dm.act_ele):
                a = int(a)
                g = G[:, idx, m]
                mon.seen(coro, sorted(o), k, m, i)
                if a in sp['dead'] or a in second:
                    mon.check(np.all(g == 0), 'jac-dead-or-tied-zero', 'column of a dead or slaved actuator is not zero', opts=o, dm=k)
                    continue
                if m > 0 and idx % 2 and mp.jac.Nmode > 2:
                    continue
                E = []
                Vs = dm.V.copy()
                for s in (1, -1):
                    dm.V = Vs.copy()
                    dm.V.flat[a] += s*h
                    if a in first:
                        dm.V.flat[first[a]] += s*h
                    E.append(field(m))
                dm.V = Vs
                fd = (E[0]-E[1])/(2*h)*dm.weight
                mon.count('columns compared')
                mon.close(np.linalg.norm(g-fd)/np.sqrt(npx), 0., 'jac-fd-%s' % kind,
                          'Jacobian column is not the derivative of the compact model', scale=1., rtol=0., atol=tol*peak, coro=coro, opts=o, dm=k,
                          mode=m, ratio=float(np.linalg.norm(g)/max(np.linalg.norm(fd), 1e-300)))
    if len(dms) == 1:
        other = np.asarray(J.G2 if 1 in dms else J.G1)
        mon.check(not np.any(other), 'jac-unused-dm', 'Jacobian of a DM that is not used is not zero', opts=o)
    mon.sample(coro=coro, options=o, modes=int(mp.jac.Nmode), pixels=npx)
