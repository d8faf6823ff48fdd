"""K01: the controller's command minimises the regularised weighted dark-hole energy."""
import copy

import numpy as np
import falco
from rv.core import rng_of, Skip
from rv import configs

RULE = ('controller calls on models over coronagraph, sub-bands, Zernike modes, stars, spatial weights, mirrors in use, subsets of actuators, mirror weights, '
        'regularisations, scale factors, normalisation, empirical and model-based searches, serial and parallel; Jacobians random or of the model, fields random; every '
        'camera image taken is recorded with the mirror commands of that moment; scheduled control over several iterations; searches whose larger candidates reach the limits of a mirror; gradient-based control; distinct = (kind, options)')
ASSUMPTIONS = ['Jacobian columns, mode weights and spatial weights are taken as given (judged by J01, S01 and M03)', 'tied actuators are judged with the constraints (D02, W01)']


def cases(tier, seed):
    q = tier == 'quick'
    n = dict(ad=3, planned=6, grid=14, rails=3) if q else dict(ad=36, planned=120, grid=240, rails=40)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def run_case(case, mon):
    globals()[case['kind']](case, rng_of(case), mon)


def options(r, i):
    coro = ['LC', 'VC', 'FLC', 'LC'][i % 4]
    o = dict(Vmin=-1e6, Vmax=1e6, Nact=8, Nbeam=32, FOV=5., corr=(2.2, 4.6, 180), score=(2.7, 4.3, 180), D=7.5e-3, Dstop=8e-3)
    if r.random() < 0.5:
        o['Nsbp'] = int(r.integers(2, 4))
        o['fracBW'] = 0.15
    if r.random() < 0.4:
        o['zerns'] = [1] + sorted(int(x) for x in r.choice(np.arange(2, 8), int(r.integers(1, 3)), replace=False))
        o['Zcoef'] = 1e-9*r.uniform(0.5, 3, len(o['zerns']))
    if r.random() < 0.35:
        o['stars'] = [(0., 0., 1.), (float(r.uniform(-4, 4)), float(r.uniform(-4, 4)), float(r.uniform(0.1, 1)))]
        o['jac_star_weights'] = [float(x) for x in r.uniform(0.2, 1, 2)]
        o['WspatialDef'] = [[2., 3.2, float(r.uniform(0, 3))], [3.5, 4.5, float(r.uniform(0, 3))]] if r.random() < 0.7 else []
    elif r.random() < 0.6:
        a = float(r.uniform(2, 3.5))
        o['WspatialDef'] = [[a, a+1, float(r.uniform(0, 4))]]
    o['dm_ind'] = [[1, 2], [1], [2], [1, 2]][int(r.integers(0, 4))]
    o['dm_weights'] = tuple(float(x) for x in r.choice([1., 0.5, 2.], 2)) if r.random() < 0.5 else (1., 1.)
    o['sides'] = str(r.choice(['lr', 'top', 'right']))
    if r.random() < 0.25:
        o['minimizeNI'] = True
        o.pop('zerns', None), o.pop('Zcoef', None)
    o['log10regVec'] = np.sort(r.uniform(-5, 0, int(r.integers(1, 4))))
    if r.random() < 0.3:
        o['log10regVec'] = o['log10regVec'][::-1].copy()
    o['dmfacVec'] = np.array([1.]) if r.random() < 0.4 else r.uniform(0.2, 1.5, int(r.integers(1, 3)))
    if r.random() < 0.35:
        o['flagUseModel'] = True
    return coro, o


def dms(mp):
    return [(1, mp.dm1), (2, mp.dm2)]


def used(mp):
    return [(k, d) for k, d in dms(mp) if k in [int(x) for x in mp.dm_ind]]


def jac_of(mp, r, real):
    """A Jacobian for the actuators in use: the model's, or a random one of similar size."""
    J = falco.config.Object()
    if real:
        with configs.quiet():
            return falco.model.jacobian(mp)
    npx = int(np.sum(mp.Fend.corr.maskBool))
    for k, d in used(mp):
        n = len(d.act_ele)
        s = 10**r.uniform(-5, -4)
        setattr(J, 'G%d' % k, s*(r.standard_normal((npx, n, mp.jac.Nmode)) + 1j*r.standard_normal((npx, n, mp.jac.Nmode)))
                * r.uniform(0.2, 1, (1, n, 1)))
    return J


def solve(mp, J, Eest, reg):
    """Independent solution of the regularised weighted least-squares problem, as one command map per mirror."""
    npx = int(np.sum(mp.Fend.corr.maskBool))
    rows, rhs = [], []
    W = np.asarray(mp.WspatialVec).reshape(npx, -1)
    for m in range(mp.jac.Nmode):
        G = np.concatenate([np.asarray(getattr(J, 'G%d' % k))[:, :, m].reshape(npx, -1) for k, _ in used(mp)], axis=1)
        b = np.asarray(Eest)[:, m]
        if mp.jac.minimizeNI:
            mv = falco.config.ModelVariables()
            mv.whichSource = 'star'
            mv.sbpIndex, mv.zernIndex, mv.starIndex = mp.jac.sbp_inds[m], mp.jac.zern_inds[m], mp.jac.star_inds[m]
            P = falco.model.compact(mp, mv, useFPM=False)
            a = np.sort(np.abs(P).ravel())
            if a[-2] > 0.99*a[-1]:
                raise Skip  # which pixel is the peak is a matter of rounding
            b = b/P.flat[np.argmax(np.abs(P))]
        w = np.sqrt(mp.jac.weights[m])*W[:, mp.jac.star_inds[m]]
        rows.append(w[:, None]*G)
        rhs.append(w*b)
    A = np.concatenate(rows)
    b = np.concatenate(rhs)
    A = np.concatenate((A.real, A.imag))
    b = np.concatenate((b.real, b.imag))
    lam = 10.**reg*np.max(np.sum(A**2, axis=0))
    n = A.shape[1]
    u = -np.linalg.lstsq(np.concatenate((A, np.sqrt(lam)*np.eye(n))), np.concatenate((b, np.zeros(n))), rcond=None)[0]
    out, j = {}, 0
    for k, d in used(mp):
        v = np.zeros(d.Nact**2)
        na = len(d.act_ele)
        v[np.asarray(d.act_ele)] = u[j:j+na]*d.weight
        out[k] = v.reshape(d.Nact, d.Nact)
        j += na
    return out


def image(mp, V0, du, cv):
    """Image with the command added, through the camera or predicted with the model."""
    for k, d in dms(mp):
        d.V = V0[k] + du.get(k, 0)
    if mp.ctrl.flagUseModel:
        dd = falco.config.Object()
        for k in du:
            setattr(dd, 'dDM%dV' % k, du[k])
        im = np.asarray(falco.imaging.get_expected_summed_image(mp, cv, dd))
    else:
        im = np.asarray(falco.imaging.get_summed_image(mp))
    for k, d in dms(mp):
        d.V = V0[k].copy()
    return im, float(np.mean(im[np.asarray(mp.Fend.corr.maskBool)]))


class Log:
    """Records the mirror commands at every camera exposure."""

    def __init__(self):
        self.ev = []

    def __enter__(self):
        self.f = falco.imaging.get_summed_image

        def g(mp, *a, **k):
            self.ev.append((mp.dm1.V.copy(), mp.dm2.V.copy()))
            return self.f(mp, *a, **k)
        falco.imaging.get_summed_image = g
        return self

    def __exit__(self, *a):
        falco.imaging.get_summed_image = self.f


def start(mp, r):
    configs.set_v(mp, r, float(r.choice([0., 5., 15.])))
    with configs.quiet():
        falco.imaging.calc_psf_norm_factor(mp)
    for _, d in used(mp):
        n = d.Nact**2
        if r.random() < 0.5:
            d.act_ele = np.sort(r.choice(n, int(r.integers(n//3, n)), replace=False))
            d.Nele = len(d.act_ele)
    for k, d in dms(mp):
        if (k, d) not in used(mp):
            d.Nele = 0


def field(mp, r, J):
    """A dark-hole field the mirrors can partly correct, with commands of some volts."""
    npx = int(np.sum(mp.Fend.corr.maskBool))
    E = np.zeros((npx, mp.jac.Nmode), complex)
    uu = {k: 5*r.standard_normal(len(d.act_ele)) for k, d in used(mp)}
    for m in range(mp.jac.Nmode):
        for k, d in used(mp):
            E[:, m] += getattr(J, 'G%d' % k)[:, :, m] @ uu[k]
    s = np.sqrt(np.mean(np.abs(E)**2))
    return E + 0.7*s*(r.standard_normal(E.shape) + 1j*r.standard_normal(E.shape))


def expect(mp, J, E, regs, facs, V0, cv):
    """Every candidate (reg, fac), its command, image and mean intensity."""
    c = []
    sol = {reg: solve(mp, J, E, reg) for reg in set(regs)}
    for f in facs:
        for reg in regs:
            du = {k: f*v for k, v in sol[reg].items()}
            im, s = image(mp, V0, du, cv)
            c.append((reg, f, du, im, s))
    return c


def judge(mp, mon, cand, V0, cv, tag, **kw):
    """The command applied, image and settings kept are those of the best candidate."""
    scores = np.array([c[4] for c in cand])
    good = np.flatnonzero(scores <= scores.min()*(1+1e-7))
    sc = max([1e-3]+[np.abs(v).max() for v in cand[good[0]][2].values()])
    done = {k: d.V - V0[k] for k, d in dms(mp)}
    err = [max(np.abs(done[k] - cand[g][2].get(k, 0)).max() for k, _ in dms(mp)) for g in good]
    b = cand[good[int(np.argmin(err))]]
    for k, d in dms(mp):
        mon.close(done[k], b[2].get(k, np.zeros_like(done[k])), tag+'-command', 'command applied is not the (best) regularised least-squares solution', rtol=1e-8, scale=sc, dm=k,
                  reg=b[0], fac=b[1], **kw)
        if k in b[2]:
            mon.close(d.dV, b[2][k], tag+'-delta', 'change of command stored is not the one applied', rtol=1e-8, scale=sc, dm=k, **kw)
    mon.close(cv.Im, b[3], tag+'-image', 'image kept is not that of the command applied', rtol=1e-7, **kw)
    mon.close(cv.log10regUsed, b[0], tag+'-reg', 'regularisation recorded is not the one used', rtol=1e-9, **kw)
    return b


def grid(case, r, mon):
    i = case['i']
    coro, o = options(r, i)
    mp, _ = configs.fleshed(coro, **o)
    start(mp, r)
    J = jac_of(mp, r, r.random() < 0.4)
    E = field(mp, r, J)
    V0 = {k: d.V.copy() for k, d in dms(mp)}
    keep = {k: getattr(J, 'G%d' % k).copy() for k, _ in used(mp)}
    E0 = E.copy()
    cv = falco.config.Object()
    cv.Itr, cv.Eest, cv.flagRelin = 0, E, True
    cv.NeleAll = sum(len(d.act_ele) for _, d in used(mp))
    regs, facs = list(mp.ctrl.log10regVec), list(mp.ctrl.dmfacVec)
    mp.controller = ['gridsearchEFC', 'gridSearchEFC'][i % 2]
    ele = {k: np.array(d.act_ele) for k, d in used(mp)}
    for rep in range(2):
        V0 = {k: d.V.copy() for k, d in dms(mp)}
        with configs.quiet():
            cand = expect(mp, J, E0, regs, facs, V0, cv)
        mp.flagParallel = bool(r.random() < 0.15)
        with configs.quiet(), Log() as log:
            ok, _ = mon.runs(lambda: falco.ctrl.wrapper(mp, cv, J), 'efc-runs', 'controller failed', coro=coro, opts=o)
        mp.flagParallel = False
        if not ok:
            return
        judge(mp, mon, cand, V0, cv, 'efc' if rep == 0 else 'efc-again', coro=coro, opts=o)
        if not mp.ctrl.flagUseModel:
            sc = max(1e-3, max(np.abs(v).max() for c in cand for v in c[2].values()))
            mon.check(len(log.ev) >= len(cand), 'efc-exposures', 'fewer exposures than candidates', n=len(log.ev), want=len(cand), opts=o)
            for c in cand:
                d = min(max(np.abs(e[k-1] - V0[k] - c[2].get(k, 0)).max() for k in (1, 2)) for e in log.ev)
                mon.check(d <= 1e-8*sc, 'efc-trials', 'no exposure was taken with a candidate command', worst=d, scale=sc, opts=o)
            for e in log.ev:
                d = min(max(np.abs(e[k-1] - V0[k] - c[2].get(k, 0)).max() for k in (1, 2)) for c in cand)
                mon.check(d <= 1e-8*sc, 'efc-restored', 'an exposure was taken with a command which is not the starting one plus a candidate', worst=d, scale=sc, opts=o)
            mon.count('exposures', len(log.ev))
        mon.equal(E, E0, 'efc-inputs', 'estimate was modified', opts=o)
        for k in keep:
            mon.equal(getattr(J, 'G%d' % k), keep[k], 'efc-inputs', 'Jacobian of the caller was modified', opts=o)
            mon.equal(np.array(dict(dms(mp))[k].act_ele), ele[k], 'efc-inputs', 'actuators in use changed', opts=o)
        mon.count('candidates', len(cand))
    mon.seen('grid', coro, sorted(o), o['dm_ind'], len(regs), len(facs))
    mon.sample(coro=coro, opts=o)


def rails(case, r, mon):
    """Candidates which reach the limits of a mirror do not disturb the others, nor the mirror."""
    i = case['i']
    coro, o = options(r, i)
    lim = float(r.uniform(2., 8.))
    o['Vmin'], o['Vmax'] = -lim, lim
    o['flagUseModel'] = i % 3 != 2
    o['log10regVec'] = np.sort(r.uniform(-4, -1, 2))
    o['dmfacVec'] = np.array([1., float(r.uniform(0.2, 0.6))])
    o['controller'] = 'gridsearchEFC'
    mp, _ = configs.fleshed(coro, **o)
    start(mp, r)
    for _, d in dms(mp):
        d.V = np.clip(d.V, -0.5*lim, 0.5*lim)
    J = jac_of(mp, r, False)
    E = field(mp, r, J)
    # scale the estimate so that only the larger commands reach the limits
    with configs.quiet():
        sol = [solve(mp, J, E.copy(), g) for g in o['log10regVec']]
    top = max(np.abs(v).max() for c in sol for v in c.values())
    if not top > 0:
        return
    E = E*(1.2*lim/top)
    pin = {k: (np.array(d.pinned), np.array(d.Vpinned)) for k, d in dms(mp)}

    def search(regs, facs):
        m = copy.deepcopy(mp)
        m.ctrl.log10regVec, m.ctrl.dmfacVec = np.array(regs), np.array(facs)
        c = falco.config.Object()
        c.Itr, c.Eest, c.flagRelin = 0, E.copy(), True
        c.NeleAll = sum(len(d.act_ele) for _, d in used(m))
        with configs.quiet():
            ok, _ = mon.runs(lambda: falco.ctrl.wrapper(m, c, copy.deepcopy(J)), 'efc-runs', 'controller failed', coro=coro, opts=o)
        return (m, c) if ok else None
    regs, facs = list(o['log10regVec']), list(o['dmfacVec'])
    a = search(regs, facs)
    if a is None:
        return
    m, c = a
    for k, d in dms(m):
        mon.check(np.array_equal(np.array(d.pinned), pin[k][0]) and np.array_equal(np.array(d.Vpinned), pin[k][1]), 'efc-rails-pinned',
                  'a trial command left actuators pinned', dm=k, n=len(d.pinned), coro=coro, opts=o)
    alone = []
    for g in regs:
        for f in facs:
            b = search([g], [f])
            if b is None:
                return
            alone.append(float(np.ravel(b[1].InormVec)[0]))
    mon.close(np.sort(np.ravel(c.InormVec)), np.sort(alone), 'efc-rails-independent',
              'the intensity of a candidate depends on which others were tried', rtol=1e-7, coro=coro, opts=o)
    mon.close(c.cMin, min(alone), 'efc-rails-best', 'the best candidate was not chosen', rtol=1e-7, coro=coro, opts=o)
    nrail = sum(int((np.abs(np.array(d.V) + d.biasMap) > lim).sum()) for _, d in dms(m))
    mon.count('railed actuators', nrail)
    mon.seen('rails', coro, sorted(o), nrail > 0)


def planned(case, r, mon):
    i = case['i']
    coro, o = options(r, i)
    o['controller'] = 'plannedEFC'
    for a in ('dm_ind', 'minimizeNI'):
        o.pop(a, None)
    o['dm_ind'] = [1, 2]
    use = [12, 1, 2, 12, 21][int(r.integers(0, 5))]
    nrow = int(r.integers(2, 5))
    rows, known = [], False
    for j in range(nrow):
        n = int(r.integers(1, 3))
        gs = j == 0 and r.random() < 0.6 or r.random() < 0.4
        reg = complex(float(r.choice([-4., -3., -2.5, -1.])), 0)
        if (gs or known) and r.random() < 0.7:
            reg = complex(float(r.choice([0., 0., -1., 0.5])), 1)
        known = known or gs
        rows.append([n, reg, use, 1 if j == 0 or r.random() < 0.4 else 0, 1 if gs else 0])
        if r.random() < 0.15:
            rows.insert(len(rows)-1, [0, 0, 0, 1, 0])
    o['sched'] = np.array(rows, dtype=complex)
    mp, _ = configs.fleshed(coro, **o)
    # what the rows mean, row by row
    plan = []
    for n, reg, u, rl, gs in rows:
        for q in range(n):
            plan.append(dict(reg=reg, dms=[int(x) for x in str(int(u))], gs=bool(gs) and q == 0))
    mp.dm_ind = np.array(plan[0]['dms'])
    start(mp, r)
    J = jac_of(mp, r, False)
    cv = falco.config.Object()
    best = bestfac = None
    mon.equal(mp.Nitr, len(plan), 'sched-n', 'number of iterations of the schedule', rows=rows)
    for it, p in enumerate(plan):
        mp.dm_ind = mp.dm_ind_sched[it]
        E = field(mp, r, J)
        V0 = {k: d.V.copy() for k, d in dms(mp)}
        cv.Itr, cv.Eest = it, E.copy()
        cv.NeleAll = sum(len(d.act_ele) for _, d in used(mp))
        with configs.quiet():
            cand = None
            if p['gs']:
                cand = expect(mp, J, E, list(mp.ctrl.log10regVec), list(mp.ctrl.dmfacVec), V0, cv)
                sc = np.array([c[4] for c in cand])
                k = int(np.argmin(sc))
                if np.sum(sc <= sc[k]*(1+1e-6)) > 1:  # no single winner
                    return
                best, bestfac = cand[k][:2]
            if p['gs'] and p['reg'].imag and p['reg'].real == 0:
                final = cand
            else:
                reg = p['reg'].real + (best if p['reg'].imag else 0)
                final = expect(mp, J, E, [reg], [1. if bestfac is None else bestfac], V0, cv)
            ok, _ = mon.runs(lambda: falco.ctrl.wrapper(mp, cv, J), 'plan-runs', 'controller failed', coro=coro, opts=o)
        if not ok:
            return
        judge(mp, mon, final, V0, cv, 'plan', iteration=it, rows=rows, coro=coro)
        mon.count('iterations')
    mon.seen('planned', coro, repr(rows))


def ad(case, r, mon):
    i = case['i']
    coro, o = ['LC', 'FLC', 'APLC', 'VC'][i % 4], dict(Nact=6, Nbeam=30, FOV=4., corr=(2., 3.6, 180), score=(2., 3.5, 180), F3_res=3, D=5.7e-3, Dstop=6e-3, controller='AD-EFC', useDifferentiableModel=True,
                                        pupil=dict(ID=0, wStrut=0., angStrut=[]) if i % 4 == 3 else {})
    if r.random() < 0.5:
        o['Nsbp'], o['fracBW'] = 2, 0.1
    tight = i % 3 == 2
    o['Vmin'], o['Vmax'] = (-4., 4.) if tight else (-200., 200.)
    rows = [[2, 1j, 12, 1, 1]] if r.random() < 0.5 else [[2, -1.2, 12, 1, 0]]
    o['sched'] = np.array(rows, dtype=complex)
    o['log10regVec'] = np.array([-1., -0.3])
    fac = float(r.choice([1., 0.5, 0.7]))
    o['dmfacVec'] = np.array([fac])
    mp, _ = configs.fleshed(coro, **o)
    for _, d in dms(mp):
        d.biasMap = np.zeros((6, 6))
        d.V = np.clip(3*r.standard_normal((6, 6)), -3.9, 3.9)
    ad_ = mp.ctrl.ad
    ad_.iprint, ad_.maxiter, ad_.maxfun, ad_.maxcor = -1, 60, 100000, 30
    mp.dm_ind = np.array([1, 2])
    with configs.quiet():
        falco.imaging.calc_psf_norm_factor(mp)
        for k, d in dms(mp):
            setattr(ad_, 'dm%d_act_mask_for_jac_norm' % k, np.ones(36, bool))
        J = falco.model.jacobian(mp)
        falco.ctrl.set_utu_scale_fac(mp)
    npx = int(np.sum(mp.Fend.corr.maskBool))
    mx = 0.
    for k in (1, 2):
        G = getattr(J, 'G%d' % k)
        mx = max(mx, np.max(np.tensordot(np.sum(np.abs(G)**2, axis=0), mp.jac.weights, 1)))
    mon.close(ad_.utu_scale_fac, mx, 'ad-scale', 'scale of the command penalty is not the largest weighted energy of an actuator', rtol=1e-9, opts=o)
    # a field which a few volts correct
    uu = [1.5*r.standard_normal(36) for _ in range(2)]
    E = np.stack([sum(getattr(J, 'G%d' % k)[:, :, m] @ uu[k-1] for k in (1, 2)) for m in range(mp.jac.Nmode)], 1)
    V0 = {k: d.V.copy() for k, d in dms(mp)}
    cv = falco.config.Object()
    cv.Itr, cv.Eest = 0, E
    cv.NeleAll = 72
    W = mp.WspatialVec
    mp.WspatialVec = np.ones_like(W)  # not part of the gradient-based cost
    regs = [-1., -0.3] if rows[0][4] else [-1.2]
    with configs.quiet():
        cand = expect(mp, J, E, regs, [fac if rows[0][4] else 1.], V0, cv)
        ok, _ = mon.runs(lambda: falco.ctrl.wrapper(mp, cv, None), 'ad-runs', 'gradient-based controller failed', coro=coro, opts=o)
    if not ok:
        return
    done = {k: d.V - V0[k] for k, d in dms(mp)}
    for k, d in dms(mp):
        tot = d.V + d.biasMap
        mon.check(tot.max() <= d.Vmax+1e-9 and tot.min() >= d.Vmin-1e-9, 'ad-bounds', 'gradient-based command exceeds the limits of the mirror', worst=float(np.abs(tot).max()), opts=o)
        mon.close(d.dV, done[k], 'ad-delta', 'change of command stored is not the one applied', rtol=1e-9, opts=o)
    im, s = None, None
    with configs.quiet():
        im, s = image(mp, V0, done, cv)
        _, s0 = image(mp, V0, {k: 0*v for k, v in done.items()}, cv)
    mon.close(cv.Im, im, 'ad-image', 'image kept is not that of the command applied', rtol=1e-6, opts=o)
    g = int(np.argmin([abs(c[0]-cv.log10regUsed) for c in cand]))
    mon.close(cv.log10regUsed, cand[g][0], 'ad-reg', 'regularisation recorded is none of those asked for', rtol=1e-9, opts=o)
    full = {k: v/cand[g][1] for k, v in cand[g][2].items()}
    if all((V0[k]+full[k]).max() < 0.9*d.Vmax and (V0[k]+full[k]).min() > 0.9*d.Vmin for k, d in dms(mp)):
        a = np.concatenate([done[k].ravel() for k in (1, 2)])
        b = np.concatenate([cand[g][2][k].ravel() for k in (1, 2)])
        mon.close(a, b, 'ad-command', 'gradient-based command differs from the regularised least-squares solution of the linear problem', rtol=0.08, coro=coro, opts=o)
        mon.count('unbounded commands')
    mon.seen('ad', coro, sorted(o), tight, rows[0][4])
