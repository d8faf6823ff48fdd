"""E02: pairwise probing recovers the field from images, and leaves the DMs as they were."""
import numpy as np
import falco
from rv.core import rng_of
from rv import configs

RULE = ('pairwise probing (square and rectangular probes, 2..4 pairs, either DM, any axis, offset, rotation, gain, schedule, sub-bands, workers, with the model or the Jacobian) of a '
        'dark field with and without added incoherent light; every camera image taken is recorded with the DM commands of that moment; estimates compared with the true '
        'field; distinct = option tuples')
ASSUMPTIONS = ['probes are weak (normalized intensity 1e-8) and the field is dark (below 1e-5), where the method is accurate: with the Jacobian the median error must be '
               'below 1%, with the model below 6%']


def cases(tier, seed):
    n = dict(probe=16, shape=10) if tier == 'quick' else dict(probe=160, shape=100)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def dark_model(r, i):
    """A vortex coronagraph on a clear pupil, dark enough for probing to be accurate."""
    o = dict(pupil=dict(ID=0, wStrut=0., angStrut=[]), lyot=dict(ID=0, OD=float(r.uniform(0.8, 0.9))), charge=int(r.choice([4, 6])))
    o['estimator'] = ['pwp-bp-square', 'pwp-bp', 'pairwise', 'pairwise-rect', 'pairwise-square'][i % 5]
    o['probeDM'] = 1 + int(r.random() < 0.5)
    o['Npairs'] = int(r.choice([2, 3, 4]))
    o['Nsbp'] = int(r.choice([1, 1, 2]))
    o['fracBW'] = 0.06
    if r.random() < 0.3:
        o['dm_ind'] = [int(r.integers(1, 3))]
    o['probeAxis'] = str(r.choice(['alternate', 'x', 'y', 'xy', 'alt']))
    o['probeOffset'] = tuple(int(x) for x in r.integers(-1, 2, 2))
    o['orient1'] = str(r.choice(['rot0', 'rot90', 'rot180', 'flipxrot270']))
    o['dm_weights'] = tuple(float(x) for x in r.uniform(0.5, 2, 2))
    for k in (1, 2):
        o['VtoH%d' % k] = 1e-9*r.uniform(0.7, 1.5, (12, 12))
    o['parallel'] = bool(r.random() < 0.2)
    o['Nwpsbp'] = 1
    rect = o['estimator'] in ('pwp-bp', 'pairwise-rect')
    if rect:
        o['sides'] = 'top'
    mp = configs.build('VC', **o)
    if rect:
        p = mp.est.probe
        p.xiOffset, p.etaOffset, p.width, p.height = float(r.uniform(-0.5, 0.5)), 3., 11.5, 6.
    mp.est.flagUseJac = bool(i % 2)
    mp.est.probe.rotation = float(r.choice([0., 0., 3., -5.]))
    mp.est.probe.gainFudge = float(r.choice([1., 1., 0.7, 1.4]))
    mp.est.InormProbeMax = 1e-8
    sch = None
    if r.random() < 0.4:
        sch = falco.config.ProbeSchedule()
        sch.xOffsetVec = r.integers(-1, 2, 4)
        sch.yOffsetVec = r.integers(-1, 2, 4)
        sch.rotationVec = r.choice([0., 4., -3.], 4)
        sch.InormProbeVec = 1e-8*r.uniform(0.5, 2, 4)
        mp.est.probeSchedule = sch
    with configs.quiet():
        falco.setup.flesh_out_workspace(mp)
    configs.set_v(mp, r, float(r.choice([0.3, 0.6, 1.])))
    if o['probeDM'] not in mp.dm_ind:  # the model takes a DM not in use as flat, but probing puts it to use
        (mp.dm1 if o['probeDM'] == 1 else mp.dm2).V = np.zeros((12, 12))
    return mp, o, sch, rect


def run_case(case, mon):
    r = rng_of(case)
    if case['kind'] == 'shape':
        return run_shape(case, mon, r)
    mp, o, sch, rect = dark_model(r, case['i'])
    usej = mp.est.flagUseJac
    info = dict(opts={k: v for k, v in o.items() if k not in ('VtoH1', 'VtoH2')}, jac=usej, scheduled=sch is not None)
    jac = None
    if usej:
        with configs.quiet():
            if mp.est.probe.whichDM not in mp.dm_ind:
                mp.est.flagUseJac = usej = False  # no Jacobian of the probing DM
            else:
                jac = falco.model.jacobian(mp)
    Itr = int(r.integers(0, 4))
    truth = falco.config.Object()
    with configs.quiet():
        falco.est.perfect(mp, truth)
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    ind = np.array(mp.dm_ind).copy()
    background = float(r.choice([0., 0., 1e-8, 3e-7]))
    shots = []
    real = falco.imaging.get_sbp_image

    def camera(mp_, si):
        im = real(mp_, si) + background
        shots.append((si, mp_.dm1.V.copy(), mp_.dm2.V.copy(), im.copy()))
        return im
    ev = falco.config.Object()
    ev.Itr = Itr
    falco.imaging.get_sbp_image = camera
    try:
        with configs.quiet():
            falco.est.wrapper(mp, ev, jac)
    finally:
        falco.imaging.get_sbp_image = real
    np_ = mp.est.probe.Npairs
    mon.count('camera images', len(shots))
    mon.equal(mp.dm1.V, V[0], 'probing-restores-dm1', 'DM1 command changed by the estimation', **info)
    mon.equal(mp.dm2.V, V[1], 'probing-restores-dm2', 'DM2 command changed by the estimation', **info)
    mon.check(np.array_equal(np.array(mp.dm_ind), ind), 'probing-restores-dmind', 'DMs in use changed', **info)
    # what was done to the DMs
    mon.check(len(shots) == mp.Nsbp*(1+2*np_), 'probing-images', '%d images for %d pairs' % (len(shots), np_), **info)
    k = mp.est.probe.whichDM
    for si in range(mp.Nsbp):
        s = [x for x in shots if x[0] == si]
        mon.check(len(s) == 1+2*np_, 'probing-images', 'images in a sub-band', **info)
        if len(s) != 1+2*np_:
            continue
        mon.equal(s[0][1], V[0], 'unprobed-first', 'first image is not of the current commands', **info)
        mon.equal(s[0][2], V[1], 'unprobed-first', 'first image is not of the current commands', **info)
        dirs = []
        for a, b in zip(s[1::2], s[2::2]):
            other = 2 if k == 1 else 1
            mon.equal(a[other], V[other-1], 'probing-one-dm', 'the other DM moved', **info)
            mon.equal(b[other], V[other-1], 'probing-one-dm', 'the other DM moved', **info)
            dp, dm = a[k]-V[k-1], b[k]-V[k-1]
            dirs.append(dp)
            mon.check(np.abs(dp).max() > 0, 'probe-not-zero', 'a probe does nothing', **info)
            sinc_first = not rect
            if not (sinc_first and a is s[1]):   # the first square probe leaves out the cosine
                mon.close(dp+dm, np.zeros_like(dp), 'probe-pair-opposite', 'probes of a pair are not opposite', scale=np.abs(dp).max(), rtol=1e-6, **info)
        # images handed on are those taken, in that order
        arr = np.asarray(ev.imageArray)
        for j, x in enumerate(s):
            mon.equal(arr[:, :, j, si], x[3], 'probing-image-order', 'recorded image is not the one taken', **info)
            for n, vall in ((1, getattr(ev.dm1, 'Vall', None)), (2, getattr(ev.dm2, 'Vall', None))):
                if vall is not None:
                    mon.equal(np.asarray(vall)[:, :, j, si], x[n], 'probing-command-order', 'recorded command is not the one used', **info)
    im0 = sum(np.asarray(mp.sbp_weights).ravel()[x[0]]*x[3] for x in shots[::1+2*np_])
    mon.close(ev.Im, im0, 'probing-im', 'reported image is not the unprobed band image', rtol=1e-9, **info)
    # the estimate
    E, T = np.asarray(ev.Eest), np.asarray(truth.Eest)
    if not mon.check(E.shape == T.shape, 'probing-shape', 'estimate has shape %s' % (E.shape,), **info):
        return
    rel = np.abs(E-T)/np.sqrt(np.mean(np.abs(T)**2))
    med, q90 = float(np.median(rel)), float(np.quantile(rel, 0.9))
    lim = (0.01, 0.05) if usej else (0.06, 0.4)
    which = 'jac' if usej else 'model'
    mon.resid['median error (%s)' % which] = max(mon.resid.get('median error (%s)' % which, 0), med/lim[0])
    mon.resid['90%% error (%s)' % which] = max(mon.resid.get('90%% error (%s)' % which, 0), q90/lim[1])
    mon.check(med < lim[0], 'probing-recovers-%s' % which, 'estimate is off by %.3f of the rms field (median)' % med, background=background, **info)
    mon.check(q90 < lim[1], 'probing-recovers-%s' % which, 'estimate is off by %.3f of the rms field (90%%)' % q90, background=background, **info)
    mask = np.asarray(mp.Fend.corr.maskBool)
    for si in range(mp.Nsbp):
        I0 = [x for x in shots if x[0] == si][0][3][mask]
        mon.close(ev.IincoEst[:, si], I0-np.abs(E[:, si])**2, 'probing-incoherent', 'incoherent light is not what the estimate leaves', rtol=1e-9, scale=np.max(I0), **info)
    mon.seen(sorted(info['opts'].items(), key=str), usej, Itr, background, case['i'])
    mon.sample(estimator=o['estimator'], pairs=np_, dm=k, jac=usej, median_error=med, background=background)


def run_shape(case, mon, r):
    """A probe's surface has the phase, offset, turn and height asked for, and its light falls in the region probed."""
    mp, o, sch, rect = dark_model(r, case['i'])
    rot = float(r.choice([0., 7., -20., 90.]))
    psi = float(r.uniform(0.1, 2*np.pi))
    ni = 10**r.uniform(-9, -6)
    p = mp.est.probe
    k = p.whichDM
    dm = mp.dm1 if k == 1 else mp.dm2
    n = dm.Nact
    p.xOffset, p.yOffset = int(r.integers(-2, 3)), int(r.integers(-2, 3))
    axis = str(r.choice(['x', 'y']))
    g = float(np.ravel(p.gainFudge)[0])
    seen = []
    real = falco.dm.fit_surf_to_act

    def fit(d, s):
        seen.append(np.array(s))
        return real(d, s)
    falco.dm.fit_surf_to_act = fit
    try:
        with configs.quiet():
            def gen(a):
                return falco.est.gen_pairwise_probe(mp, ni, a, 0, rot) if rect else falco.est.gen_pairwise_probe_square(mp, ni, a, axis, rot)
            cmd, cmd2, cmd3 = gen(psi), gen(psi+np.pi), gen(psi+2*np.pi)
    finally:
        falco.dm.fit_surf_to_act = real
    info = dict(rect=rect, axis=axis, rot=rot, psi=psi, ni=ni, off=(p.xOffset, p.yOffset), orient=getattr(dm, 'orientation', None))
    mon.close(cmd2, -cmd, 'probe-phase', 'half a turn of phase does not reverse the probe', rtol=1e-6, **info)
    mon.close(cmd3, cmd, 'probe-phase', 'a whole turn of phase changes the probe', rtol=1e-6, **info)
    # the surface intended, from the description of the probe
    a = np.arange(n) - (n-1)/2
    X, Y = np.meshgrid((a-p.xOffset)/n, (a-p.yOffset)/n)
    t = np.radians(rot)
    X, Y = X*np.cos(t)+Y*np.sin(t), -X*np.sin(t)+Y*np.cos(t)
    h = 4*np.pi*mp.lambda0*np.sqrt(ni)
    if rect:
        f = n/(mp.P2.D/dm.dm_spacing)
        w, hh, xo, yo = (float(np.ravel(q)[0])*f for q in (p.width, p.height, p.xiOffset, p.etaOffset))
        want = h*np.sinc(w*X)*np.sinc(hh*Y)*np.cos(2*np.pi*(xo*X+yo*Y)+psi)
    else:
        R = min(p.radius, n/2)
        if axis == 'y':
            want = h*np.sinc(R*X)*np.sinc(2*R*Y)*np.cos(2*np.pi*R/2*X+psi)
        else:
            want = h*np.sinc(2*R*X)*np.sinc(R*Y)*np.cos(2*np.pi*R/2*Y+psi)
    if seen:
        mon.close(seen[0], want, 'probe-surface', 'probe surface differs from its description', rtol=1e-9, **info)
        mon.close(cmd, g*np.asarray(real(dm, want)), 'probe-command', 'probe command is not the fit of its surface times the gain', rtol=1e-9, **info)
    else:
        mon.close(cmd, g*np.asarray(real(dm, want)), 'probe-command', 'probe command is not the fit of its surface times the gain', rtol=1e-9, **info)
    mon.seen('shape', sorted(info.items(), key=str))
