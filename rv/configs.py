"""Small coronagraph models for the model-level workloads."""
import contextlib
import io
import os

import numpy as np
import falco
from rv.core import SCRATCH

REPO = os.environ.get('RV_REPO', '/repo')


def build(coro='LC', **o):
    """Return an un-fleshed ModelParameters; every option has a default."""
    g = o.get
    mp = falco.config.ModelParameters()
    mp.path = falco.config.Object()
    mp.path.falco = REPO
    mp.path.brief = SCRATCH
    mp.path.ws = SCRATCH
    mp.runLabel = 'rv%d' % os.getpid()
    mp.SeriesNum, mp.TrialNum = 1, 1
    mp.flagParallel = g('parallel', False)
    mp.Nthreads = g('nthreads', 2)
    mp.flagPlot = False
    mp.centering = cen = g('centering', 'pixel')
    mp.thput_metric = g('thput_metric', 'EE')
    mp.thput_radius = 0.7
    mp.thput_eval_x, mp.thput_eval_y = g('thput_xy', (4, 0))
    mp.source_x_offset_norm, mp.source_y_offset_norm = g('norm_xy', (5, 0))
    mp.lambda0 = g('lambda0', 575e-9)
    mp.fracBW = g('fracBW', 0.10)
    mp.Nsbp = g('Nsbp', 1)
    mp.Nwpsbp = g('Nwpsbp', 1)
    mp.estimator = g('estimator', 'perfect')
    mp.est = falco.config.Object()
    mp.est.probe = falco.config.Probe()
    mp.est.probe.Npairs = g('Npairs', 3)
    mp.est.probe.whichDM = g('probeDM', 1)
    mp.est.probe.radius = g('probeRadius', 7)
    mp.est.probe.xOffset, mp.est.probe.yOffset = g('probeOffset', (0, 0))
    mp.est.probe.axis = g('probeAxis', 'alternate')
    mp.est.probe.gainFudge = 1
    mp.ctrl = falco.config.Object()
    mp.ctrl.flagUseModel = g('flagUseModel', False)
    mp.logGmin = g('logGmin', -9)
    mp.jac = falco.config.Object()
    mp.jac.zerns = g('zerns', [1])
    mp.jac.Zcoef = g('Zcoef', 1e-9*np.ones(np.size(mp.jac.zerns)))
    mp.eval = falco.config.Object()
    mp.eval.indsZnoll = g('indsZnoll', [2, 3])
    mp.eval.Rsens = g('Rsens', np.array([]))
    mp.ctrl.log10regVec = g('log10regVec', np.arange(-5., -1.5, 1))
    mp.ctrl.dmfacVec = g('dmfacVec', np.array([1.]))
    mp.WspatialDef = g('WspatialDef', [])
    mp.dm1.weight, mp.dm2.weight = g('dm_weights', (1., 1.))
    mp.controller = g('controller', 'gridsearchEFC')
    mp.Nitr = g('Nitr', 2)
    mp.relinItrVec = g('relinItrVec', np.arange(mp.Nitr))
    mp.dm_ind = g('dm_ind', [1, 2])
    if g('sched') is not None:
        mp.ctrl.sched_mat = g('sched')
        mp.Nitr, mp.relinItrVec, mp.gridSearchItrVec, mp.ctrl.log10regSchedIn, mp.dm_ind_sched = \
            falco.ctrl.efc_schedule_generator(mp.ctrl.sched_mat)
    nact = g('Nact', 12)
    nbeam = g('Nbeam', 40)
    nfull = g('Nbeam_full', nbeam)
    pitch = g('pitch', 1e-3)
    inf = g('inf', falco.INFLUENCE_XINETICS)
    tilt = g('tilt', (0., 0., 0.))
    for k, dm in ((1, mp.dm1), (2, mp.dm2)):
        dm.inf_fn = inf
        dm.dm_spacing = pitch
        dm.inf_sign = g('inf_sign', '+')
        dm.Nact = nact
        dm.VtoH = np.array(g('VtoH%d' % k, 1e-9*np.ones((nact, nact))))
        dm.xtilt, dm.ytilt, dm.zrot = g('tilt%d' % k, tilt)
        dm.xc, dm.yc = g('dmc%d' % k, (nact/2 - 0.5, nact/2 - 0.5))
        dm.edgeBuffer = 1
        dm.Dstop = g('Dstop', nact*pitch*0.98)
        if g('orient%d' % k):
            dm.orientation = g('orient%d' % k)
        for a in ('fitType', 'surfFitMethod', 'Vmin', 'Vmax', 'useDifferentiableModel', 'flagZYX'):
            if g(a) is not None:
                setattr(dm, a, g(a))
        for a in ('pinned', 'Vpinned', 'tied', 'dead', 'biasMap', 'V', 'dVnbrLat', 'dVnbrDiag'):
            if g('%s%d' % (a, k)) is not None:
                setattr(dm, a, g('%s%d' % (a, k)))
    mp.flagDM1stop = g('DM1stop', False)
    mp.flagDM2stop = g('DM2stop', False)
    mp.d_P2_dm1 = g('d_P2_dm1', 0.)
    mp.d_dm1_dm2 = g('d_dm1_dm2', 0.05)
    mp.flagSim = True
    mp.layout = g('layout', 'Fourier')
    mp.coro = {'LC': 'LC', 'FLC': 'FLC', 'VC': 'vortex', 'APLC': 'APLC', 'HLC': 'HLC'}[coro]
    mp.Fend = falco.config.Object()
    mp.Fend.res = g('Fend_res', 2.)
    mp.Fend.FOV = g('FOV', 6.)
    mp.Fend.corr = falco.config.Object()
    mp.Fend.corr.Rin, mp.Fend.corr.Rout, mp.Fend.corr.ang = g('corr', (2.2, 5.3, 180))
    mp.Fend.score = falco.config.Object()
    mp.Fend.score.Rin, mp.Fend.score.Rout, mp.Fend.score.ang = g('score', (2.7, 5, 180))
    mp.Fend.sides = g('sides', 'lr')
    mp.Fend.eval = falco.config.Object()
    mp.Fend.eval.res = g('eval_res', 6)
    mp.fl = g('fl', 1.)
    mp.P2.D = g('D', nact*pitch*0.96)
    mp.P3.D = mp.P2.D
    mp.P4.D = mp.P2.D
    mp.P1.compact.Nbeam = nbeam
    mp.P4.compact.Nbeam = nb4 = g('Nbeam_P4', nbeam)
    mp.P1.full.Nbeam = nfull
    mp.P4.full.Nbeam = nfull
    mp.flagRotation = g('flagRotation', True)
    mp.Nrelay1to2, mp.Nrelay2to3, mp.Nrelay3to4, mp.NrelayFend = g('relays', (1, 1, 1, 0))
    mp.full = falco.config.Object()
    mp.compact = falco.config.Object()
    mp.F3.compact.res = g('F3_res', 3 if coro != 'VC' else 4)
    mp.F3.full.res = g('F3_res_full', mp.F3.compact.res)
    mp.whichPupil = 'x'
    mp.P1.IDnorm, mp.P1.ODnorm = 0.2, 1.
    mp.P1.D = 2.4
    pup = dict(OD=1., ID=0.2, centering=cen, angStrut=[80., 205., 330.], wStrut=0.03)
    pup.update(g('pupil', {}))

    def simple(nb, d):
        return falco.mask.falco_gen_pupil_Simple(dict(d, Nbeam=nb, Npad=falco.util.ceil_even(nb + 4)))
    mp.P1.full.mask = simple(nfull, pup)
    mp.P1.compact.mask = simple(nbeam, pup)
    mp.flagApod = g('apod', coro == 'APLC')
    if mp.flagApod:
        ap = dict(OD=0.9, ID=0.28, centering=cen)
        mp.P3.full.mask = simple(nfull, ap)
        mp.P3.compact.mask = simple(nbeam, ap)
    ls = dict(OD=0.85, ID=0.33, centering=cen, angStrut=[260., 25., 150.], wStrut=0.05) if coro != 'VC' else dict(OD=0.82, ID=0.25, centering=cen)
    ls.update(g('lyot', {}))
    mp.P4.full.mask = simple(nfull, ls)
    mp.P4.compact.mask = simple(nb4, ls)
    mp.P4.compact.maskAtP1res = simple(nbeam, ls)
    mp.FPMampFac = g('FPMampFac', 0.)
    if coro == 'VC':
        mp.F3.VortexCharge = g('charge', 6)
        for a in ('phaseMaskType', 'phaseScaleFac', 'clocking', 'VortexSpotDiam', 'NstepStaircase'):
            if g(a) is not None:
                setattr(mp.F3, a, g(a))
        if g('mftToVortex') is not None:
            mp.jac.mftToVortex = g('mftToVortex')
    else:
        mp.F3.Rin, mp.F3.RinA = 2.4, 2.4
        mp.F3.Rout = g('Rout', np.inf if coro != 'FLC' else 9.)
        mp.F3.ang = 180
        f = dict(rhoInner=mp.F3.Rin, rhoOuter=mp.F3.Rout, centering=cen, FPMampFac=mp.FPMampFac)
        mp.F3.full.mask = falco.mask.gen_annular_fpm(dict(f, pixresFPM=mp.F3.full.res))
        mp.F3.compact.mask = falco.mask.gen_annular_fpm(dict(f, pixresFPM=mp.F3.compact.res))
        if coro == 'HLC':  # a complex mask per wavelength, with a partly transmitting surround
            mp.layout = g('layout', 'fpm_scale')
            r = np.random.default_rng(g('hlc_seed', 5))
            nl = int(mp.Nsbp*mp.Nwpsbp - (mp.Nsbp-1)*(mp.Nwpsbp > 1))
            base = np.asarray(mp.F3.compact.mask)
            outer = (0.7+0.3*r.random(nl))*np.exp(1j*r.uniform(-1, 1, nl))
            inner = 0.3*r.random(nl)*np.exp(1j*r.uniform(-3, 3, nl))
            cube = np.stack([outer[k]*base + inner[k]*(1-base) for k in range(nl)], axis=2)
            cube[0, 0, :] = outer
            mp.full.fpmCube = cube
            mp.compact.fpmCube = cube[:, :, [s*(mp.Nwpsbp-1) + mp.Nwpsbp//2 if mp.Nwpsbp > 1 else s for s in range(mp.Nsbp)]]
            mp.F3.full.mask = cube[:, :, 0].copy()
            mp.F3.compact.mask = cube[:, :, 0].copy()
    stars = g('stars')
    if stars:
        mp.star = falco.config.Object()
        mp.star.count = len(stars)
        mp.star.xiOffsetVec = [s[0] for s in stars]
        mp.star.etaOffsetVec = [s[1] for s in stars]
        mp.star.weights = [s[2] for s in stars]
        mp.compact.star = falco.config.Object()
        mp.compact.star.count = len(stars)
        mp.compact.star.xiOffsetVec = [s[0] for s in stars]
        mp.compact.star.etaOffsetVec = [s[1] for s in stars]
        mp.compact.star.weights = [s[2] for s in stars]
        mp.jac.star = falco.config.Object()
        mp.jac.star.weights = np.array(g('jac_star_weights', np.ones(len(stars))))
    if g('propMethodPTP'):
        mp.propMethodPTP = g('propMethodPTP')
    if g('minimizeNI') is not None:
        mp.jac.minimizeNI = g('minimizeNI')
    return mp


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def fleshed(coro='LC', **o):
    mp = build(coro, **o)
    with quiet():
        out = falco.setup.flesh_out_workspace(mp)
    return mp, out


def set_v(mp, r, s=20.):
    """Random commands on both DMs, in volts (about nanometres)."""
    for dm in (mp.dm1, mp.dm2):
        dm.V = s*r.standard_normal((dm.Nact, dm.Nact))
    return mp
