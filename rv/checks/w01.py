"""W01: the wavefront control loop does, and records, what its parts do in order."""
import copy
import os
import pickle

import numpy as np
import falco
from rv.core import rng_of, SCRATCH
from rv import configs
from rv.checks import k01
from rv.checks.k02 import strengths

RULE = ('whole control loops over coronagraph, estimator, controller, schedule, relinearisation, culling, ties, limits, sub-bands, Zernike modes, stars, mirrors in use and plots, against a '
        'step-by-step replay of the same loop from its parts (each judged elsewhere): commands after every iteration, every recorded quantity recomputed from the recorded commands, files '
        'read back after every iteration, at the end, and after a failure in a random iteration; distinct = (options, schedule)')
ASSUMPTIONS = ['no neighbour rule in these loops; one wavelength per sub-band']


def cases(tier, seed):
    n = dict(loop=9, crash=1, delta=1) if tier == 'quick' else dict(loop=110, crash=8, delta=8)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def options(r, i):
    coro = ['LC', 'VC', 'APLC', 'FLC'][int(r.choice([0, 0, 1, 2, 3]))]
    o = dict(Nact=8, Nbeam=32, FOV=4.5, corr=(2.2, 4.1, 180), score=(2.5, 4., 180), D=7.5e-3, Dstop=8e-3, F3_res=3, eval_res=4, thput_xy=(3, 0), norm_xy=(4, 0))
    if coro == 'VC':
        o.update(pupil=dict(ID=0, wStrut=0., angStrut=[]), lyot=dict(ID=0))
    f = i % 9
    if f in (1, 2, 5):
        o['Nsbp'], o['fracBW'] = int(r.integers(2, 4)), 0.12
    if f in (2, 7):
        o['zerns'] = [1] + sorted(int(x) for x in r.choice(np.arange(2, 7), 2, replace=False))
        o['Zcoef'] = 1e-9*r.uniform(0.5, 2, 3)
    if f == 3:
        o['stars'] = [(0., 0., 1.), (float(r.uniform(-4, 4)), float(r.uniform(-4, 4)), float(r.uniform(0.1, 1)))]
        o['jac_star_weights'] = [1., float(r.uniform(0.2, 1))]
    if f in (4, 6):
        o['dm_ind'] = [int(r.integers(1, 3))]
    if f in (0, 4):
        o['sides'] = str(r.choice(['top', 'right']))
    o['WspatialDef'] = [[2.5, 3.5, float(r.uniform(0.2, 3))]] if r.random() < 0.6 else []
    o['logGmin'] = float(r.choice([-9., -2., -1.]))
    o['tied1'] = np.sort(r.permutation(64)[:4].reshape(-1, 2), axis=1) if f in (0, 5, 8) else None
    if f in (1, 6):
        o['Vmin'], o['Vmax'] = 45., 55.  # about a bias of 50: commands of some volts are cut
    else:
        o['Vmin'], o['Vmax'] = -1e4, 1e4
    o['log10regVec'] = np.array([-2.5, -1.5, -0.5])[:int(r.integers(1, 4))]
    o['dmfacVec'] = np.array([1.]) if r.random() < 0.5 else np.array([0.6, 1.])
    if f in (5, 8) or r.random() < 0.2:
        rows, known = [], False
        for j in range(int(r.integers(2, 4))):
            gs = j == 0 or r.random() < 0.4
            reg = complex(float(r.choice([-1., -2.])), 0) if r.random() < 0.3 else complex(float(r.choice([0., -0.5])), 1)
            rows.append([int(r.integers(1, 3)), reg, int(r.choice([12, 1, 2])), 1, int(gs)])
        o['sched'] = np.array(rows, dtype=complex)
        o['controller'] = 'plannedEFC'
        o['dm_ind'] = [1, 2]
    else:
        o['Nitr'] = int(r.integers(2, 5))
        o['relinItrVec'] = np.flatnonzero(r.random(o['Nitr']) < 0.5)
        if f == 7:
            o['flagUseModel'] = True
    if f == 6 or r.random() < 0.15:
        o['estimator'] = 'pwp-bp-square'
        o.pop('stars', None)
        o.pop('zerns', None)
        o.pop('Zcoef', None)
        if 'jac_star_weights' in o:
            o.pop('jac_star_weights')
        # A mirror that is not in use is flat to the models, except while it probes
        o['probeDM'] = int(o.get('dm_ind', [1])[0]) if 'sched' not in o else 1
        if 'sched' in o:
            o['sched'][:, 2] = [x if x in (1, 12) else 12 for x in o['sched'][:, 2].real]
    if f == 8:
        o['Rsens'] = np.array([[2.5, 3.5], [3., 4.]])
        o['indsZnoll'] = [2, 4]
    return coro, o


def model(r, i, tag):
    coro, o = options(r, i)
    mp, out = configs.fleshed(coro, **o)
    mp.runLabel = 'loop_%s_%d' % (tag, os.getpid())
    mp.flagPlot = False
    mp.flagSVD = bool(r.random() < 0.4)
    mp.flagSaveWS = bool(r.random() < 0.5)
    s = 5. if o['Vmax'] > 100 else 2.
    for d in (mp.dm1, mp.dm2):
        d.V = s*r.standard_normal((8, 8))
        if o['Vmax'] < 100:
            d.biasMap = 50*np.ones((8, 8))
            d.V = np.clip(d.V, -4.9, 4.9)
        for a, b in d.tied:
            d.V.flat[b] = d.V.flat[a]
    return coro, o, mp, out


def replay(mp, o):
    """The same loop from its parts.  Returns the commands before each iteration and after the last, and what else they imply."""
    L = []
    ev, cv = falco.config.Object(), falco.config.Object()
    best = bestfac = None
    J = None
    prev = None
    jacs = 0
    plan = []
    for n, reg, u, rl, gs in (o['sched'] if 'sched' in o else []):
        for q in range(int(n.real)):
            plan.append((complex(reg), [int(x) for x in str(int(u.real))], bool(gs.real) and q == 0, bool(rl.real) and q == 0))
    mask, score = np.asarray(mp.Fend.corr.maskBool), np.asarray(mp.Fend.score.maskBool)
    nit = len(plan) if plan else o['Nitr']
    for it in range(nit):
        rec = {}
        if plan:
            mp.dm_ind = np.array(plan[it][1])
        now = sorted(int(x) for x in mp.dm_ind)
        relin = it == 0 or (plan[it][3] if plan else it in list(o['relinItrVec']))
        rec['V'] = {k: d.V.copy() for k, d in k01.dms(mp)}
        falco.imaging.calc_psf_norm_factor(mp)
        rec['thput'] = float(np.max(falco.imaging.calc_thput(mp)[0]))
        falco.setup.falco_set_jacobian_modal_weights(mp)
        changed = it == 0 or (bool(plan) and now != prev)
        if relin:
            if changed:
                for k, d in k01.used(mp):
                    d.act_ele = np.arange(d.Nact**2)
            for k, d in k01.dms(mp):
                d.Nele = len(d.act_ele) if k in now else 0
            J = falco.model.jacobian(mp)
            jacs += 1
            if changed:
                for k, d in k01.used(mp):
                    G = getattr(J, 'G%d' % k)
                    keep = strengths(G) >= 10**mp.logGmin
                    keep[np.unique(d.tied).astype(int)] = True
                    setattr(J, 'G%d' % k, G[:, keep, :])
                    d.act_ele = np.flatnonzero(keep)
                    d.Nele = len(d.act_ele)
        prev = now
        ev.Itr = cv.Itr = it
        falco.est.wrapper(mp, ev, J)
        E = np.array(ev.Eest)
        rec['E'], rec['Inco'] = E, np.array(ev.IincoEst)
        rec['Im'] = np.asarray(falco.imaging.get_summed_image(mp))
        rec['sub'] = [np.asarray(falco.imaging.get_sbp_image(mp, si)) for si in range(mp.Nsbp)]
        rec['sim'] = []
        for si in range(mp.Nsbp):
            mv = falco.config.ModelVariables()
            mv.whichSource, mv.sbpIndex, mv.starIndex = 'star', si, 0
            rec['sim'].append(falco.model.compact(mp, mv)[mask])
        rec['J'] = {k: getattr(J, 'G%d' % k).copy() for k, _ in k01.used(mp)}
        cv.Eest = E
        V0 = rec['V']
        if not plan or plan[it][2]:
            cand = k01.expect(mp, J, E, list(mp.ctrl.log10regVec), list(mp.ctrl.dmfacVec), V0, cv)
            sc = np.array([c[4] for c in cand])
            b = int(np.argmin(sc))
            if np.sum(sc <= sc[b]*(1+1e-5)) > 1:
                return None
            best, bestfac = cand[b][:2]
            pick = cand[b]
        if plan and not (plan[it][2] and plan[it][0].imag and plan[it][0].real == 0):
            reg = plan[it][0].real + (best if plan[it][0].imag else 0)
            pick = k01.expect(mp, J, E, [reg], [1. if bestfac is None else bestfac], V0, cv)[0]
        rec['reg'], rec['ctrlIm'] = pick[0], pick[3]
        for k, d in k01.used(mp):
            d.V = V0[k] + pick[2][k]
            falco.dm.enforce_constraints(d)
        rec['used'] = now
        if 'Rsens' in o:
            rec['Z'] = np.array(falco.zern.calc_zern_sens(mp))
        L.append(rec)
    end = {k: d.V.copy() for k, d in k01.dms(mp)}
    thput = float(np.max(falco.imaging.calc_thput(mp)[0]))
    return L, end, thput, mask, score, jacs


def same(a, b):
    """Deep equality of records of arrays."""
    if hasattr(a, '__dict__') and hasattr(b, '__dict__'):
        return sorted(vars(a)) == sorted(vars(b)) and all(same(vars(a)[k], vars(b)[k]) for k in vars(a))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


def run_case(case, mon):
    globals()[case['kind']](case, rng_of(case), mon)


def stats(mp, V, k):
    """Peak to valley volts, and peak-to-valley and rms surface over the pupil."""
    d = getattr(mp, 'dm%d' % k)
    keep = d.V.copy()
    d.V = V.copy()
    s = falco.dm.gen_surf_from_act(d, d.compact.dx, d.compact.Ndm)
    d.V = keep
    n = s.shape[0]
    x = (np.arange(n) - n//2 + (0.5 if mp.centering == 'interpixel' and n % 2 == 0 else 0))*d.compact.dx/mp.P2.D
    rr = np.hypot(*np.meshgrid(x, x))
    m = (rr <= 0.5) & (rr >= mp.P1.IDnorm/2)
    return np.ptp(V), np.ptp(s), np.sqrt(np.mean(s[m]**2))


def loop(case, r, mon):
    i = case['i']
    coro, o, mp, out = model(r, i, 'l%d' % i)
    twin = copy.deepcopy(mp)
    with configs.quiet():
        res = replay(twin, o)
    if res is None:
        return
    L, end, thput, mask, score, jacs = res
    fn = os.path.join(SCRATCH, mp.runLabel + '_snippet.pkl')
    njac = [0]
    fj, fe = falco.model.jacobian, falco.est.wrapper

    def jac(*a, **k):
        njac[0] += 1
        return fj(*a, **k)

    def est(m, ev, *a, **k):
        it = int(ev.Itr)
        if it > 0:
            with open(fn, 'rb') as fh:
                s = pickle.load(fh)
            mon.check(int(s.Itr) == it-1 and same(s.dm1.Vall, out_before['V']) and s.InormHist[it-1] > 0, 'loop-snippet-progress', 'file on disk does not hold the iterations completed',
                      it=it, on_disk=int(s.Itr))
        res = fe(m, ev, *a, **k)
        out_before['V'] = out.dm1.Vall.copy()
        return res
    out_before = {}
    falco.model.jacobian, falco.est.wrapper = jac, est
    try:
        with configs.quiet():
            ok, _ = mon.runs(lambda: falco.wfsc.loop(mp, out), 'loop-runs', 'control loop failed', coro=coro, opts=o)
    finally:
        falco.model.jacobian, falco.est.wrapper = fj, fe
    if not ok:
        return
    mon.count('jacobians', njac[0])
    mon.count('iterations', len(L))
    kw = dict(coro=coro, opts=o)
    V = {1: np.asarray(out.dm1.Vall), 2: np.asarray(out.dm2.Vall)}
    mon.check(V[1].shape[2] == len(L)+1, 'loop-length', 'number of commands recorded', n=V[1].shape[2], want=len(L)+1, **kw)
    for it, rec in enumerate(L):
        for k in (1, 2):
            mon.close(V[k][:, :, it], rec['V'][k], 'loop-commands', 'commands before an iteration are not those its predecessors lead to', rtol=1e-5, scale=10., dm=k, it=it, **kw)
    for k in (1, 2):
        mon.close(V[k][:, :, -1], end[k], 'loop-commands', 'commands after the last iteration', rtol=1e-5, scale=10., dm=k, **kw)
        mon.equal(getattr(mp, 'dm%d' % k).V, V[k][:, :, -1], 'loop-final', 'command left on the mirror is not the last one recorded', dm=k, **kw)
        d = getattr(mp, 'dm%d' % k)
        if any(k in rec['used'] for rec in L):
            for j in range(1, len(L)+1):
                if k in L[j-1]['used']:
                    t = V[k][:, :, j]+d.biasMap
                    mon.check(t.max() <= d.Vmax+1e-9 and t.min() >= d.Vmin-1e-9, 'loop-limits', 'command beyond the limits of the mirror', dm=k, it=j, **kw)
                    for a, b in d.tied:
                        mon.close(t.flat[a], t.flat[b], 'loop-ties', 'tied actuators differ', rtol=1e-9, dm=k, it=j, **kw)
    if any(np.abs(V[k][:, :, it]-rec['V'][k]).max() > 1e-4 for it, rec in enumerate(L) for k in (1, 2)):
        return  # everything else would differ too
    w = np.asarray(mp.sbp_weights).ravel()
    zern, sbp, star = (np.asarray(getattr(mp.jac, a)) for a in ('zern_inds', 'sbp_inds', 'star_inds'))
    model_only = bool(mp.ctrl.flagUseModel)
    for it, rec in enumerate(L):
        k2 = dict(kw, it=it)
        T = dict(rtol=1e-4)
        mon.close(out.thput[it], rec['thput'], 'loop-thput', 'throughput recorded', **T, **k2)
        if True:
            mon.close(out.IrawCorrHist[it], rec['Im'][mask].mean(), 'loop-measured', 'measured intensity recorded (correction region)', **T, **k2)
            mon.close(out.IrawScoreHist[it], rec['Im'][score].mean(), 'loop-measured', 'measured intensity recorded (scoring region)', **T, **k2)
            mon.close(out.InormHist[it], rec['Im'][mask].mean(), 'loop-measured', 'normalised intensity recorded', **T, **k2)
        tc = ts = uc = us = 0.
        insc = score[mask]
        for m in np.flatnonzero(zern == 1):
            e, u = np.abs(rec['E'][:, m])**2, rec['Inco'][:, m]
            tc, ts = tc + w[sbp[m]]*e.mean(), ts + w[sbp[m]]*e[insc].mean()
            uc, us = uc + w[sbp[m]]*u.mean(), us + w[sbp[m]]*u[insc].mean()
            j = star[m]*mp.Nsbp + sbp[m]
            mon.close(out.normIntModCorr[it, j], e.mean(), 'loop-modulated', 'modulated intensity of a sub-band', **T, **k2)
            mon.close(out.normIntModScore[it, j], e[insc].mean(), 'loop-modulated', 'modulated intensity of a sub-band (scoring)', **T, **k2)
            sc = max(abs(u).mean(), 1e-3*e.mean())
            mon.close(out.normIntUnmodCorr[it, j], u.mean(), 'loop-unmodulated', 'unmodulated intensity of a sub-band', rtol=1e-4, scale=sc, **k2)
            mon.close(out.normIntUnmodScore[it, j], u[insc].mean(), 'loop-unmodulated', 'unmodulated intensity of a sub-band (scoring)', rtol=1e-4, scale=sc, **k2)
        mon.close(out.IestCorrHist[it], tc, 'loop-estimated', 'estimated coherent intensity', **T, **k2)
        mon.close(out.IestScoreHist[it], ts, 'loop-estimated', 'estimated coherent intensity (scoring)', **T, **k2)
        mon.close(out.IincoCorrHist[it], uc, 'loop-incoherent', 'estimated incoherent intensity', rtol=1e-4, scale=max(abs(uc), 1e-3*tc), **k2)
        mon.close(out.IincoScoreHist[it], us, 'loop-incoherent', 'estimated incoherent intensity (scoring)', rtol=1e-4, scale=max(abs(us), 1e-3*tc), **k2)
        if 'stars' not in o:
            for si in range(mp.Nsbp):
                mon.close(out.normIntMeasCorr[it, si], rec['sub'][si][mask].mean(), 'loop-subbands', 'measured intensity of a sub-band', **T, **k2)
                mon.close(out.normIntMeasScore[it, si], rec['sub'][si][score].mean(), 'loop-subbands', 'measured intensity of a sub-band (scoring)', **T, **k2)
        mon.close(out.log10regHist[it], rec['reg'], 'loop-reg', 'regularisation recorded', rtol=1e-9, **k2)
        nxt = L[it+1]['V'] if it+1 < len(L) else end
        for k in (1, 2):
            if k in rec['used']:
                vp, sp, sr = stats(mp, nxt[k], k)
                od = getattr(out, 'dm%d' % k)
                for nm, a, b in (('volts', od.Vpv[it], vp), ('surface', od.Spv[it], sp), ('rms', od.Srms[it], sr)):
                    mon.close(a, b, 'loop-dm-stats', 'peak to valley or rms of a mirror recorded: ' + nm, rtol=1e-4, **k2)
        if 'Rsens' in o:
            mon.close(out.Zsens[:, :, it], rec['Z'], 'loop-zernike', 'Zernike sensitivity recorded', rtol=1e-3, **k2)
        if mp.flagSVD:
            G = np.concatenate([np.concatenate([rec['J'][k][:, :, m] for k in sorted(rec['J'])], axis=1) for m in range(mp.jac.Nmode)])
            s = np.linalg.svd(np.concatenate((G.real, G.imag)), compute_uv=False)
            mon.close(np.asarray(out.sm[it]).ravel(), s, 'loop-svd', 'singular values of the Jacobian recorded', rtol=1e-5, **k2)
            mon.close(np.asarray(out.alpha2[it]), np.max(np.sum(np.abs(G)**2, axis=0)), 'loop-svd', 'largest actuator energy recorded', rtol=1e-5, **k2)
        if it > 0 and o.get('estimator') is None:
            delta(mp, out, L, it, mon, k2)
    if not model_only:
        rec = L[-1]
        mon.close(out.IrawCorrHist[-1], rec['ctrlIm'][mask].mean(), 'loop-measured', 'measured intensity after the last iteration', rtol=1e-4, **kw)
        mon.close(out.InormHist[-1], rec['ctrlIm'][mask].mean(), 'loop-measured', 'normalised intensity after the last iteration', rtol=1e-4, **kw)
        mon.close(out.IrawScoreHist[-1], rec['ctrlIm'][score].mean(), 'loop-measured', 'measured intensity after the last iteration (scoring)', rtol=1e-4, **kw)
    mon.close(out.thput[-1], thput, 'loop-thput', 'throughput after the last iteration', rtol=1e-4, **kw)
    with open(fn, 'rb') as fh:
        mon.check(same(pickle.load(fh), out), 'loop-snippet', 'file written differs from the history returned', **kw)
    ws = os.path.join(SCRATCH, mp.runLabel + '_all.pkl')
    if mp.flagSaveWS:
        ok, m2 = mon.runs(lambda: pickle.load(open(ws, 'rb')), 'loop-workspace', 'saved workspace cannot be read')
        if ok:
            for k in (1, 2):
                mon.equal(getattr(m2, 'dm%d' % k).V, V[k][:, :, -1], 'loop-workspace', 'commands in the saved workspace', dm=k, **kw)
            mon.equal(m2.Fend.corr.maskBool, mask, 'loop-workspace', 'dark hole in the saved workspace', **kw)
    else:
        mon.check(not os.path.exists(ws), 'loop-workspace', 'workspace was saved without being asked for', **kw)
    for f in (fn, ws):
        if os.path.exists(f):
            os.remove(f)
    mon.seen('loop', coro, repr(sorted(o.items(), key=str)))
    mon.sample(coro=coro, opts=o)


def delta_metrics(sim, meas, conj):
    a = np.conj(sim) if conj else sim
    b = np.conj(meas) if conj else meas
    c, d, e = abs(np.sum(a*meas)), abs(np.sum(a*sim)), abs(np.sum(b*meas))
    return c/d, c/np.sqrt(d*e)


def delta_check(mp, out, sims, ests, it, mon, k2):
    zern, sbp, star = (np.asarray(getattr(mp.jac, a)) for a in ('zern_inds', 'sbp_inds', 'star_inds'))
    for si in range(mp.Nsbp):
        m = np.flatnonzero((zern == 1) & (sbp == si) & (star == 0))[0]
        ds, dm = sims[1][si] - sims[0][si], ests[1][:, m] - ests[0][:, m]
        if np.abs(dm).max() < 1e-9 or np.abs(ds).max() < 1e-9:
            continue
        got = np.array([out.complexProjection[it-1, si], out.complexCorrelation[it-1, si]])
        want, odd = np.array(delta_metrics(ds, dm, True)), np.array(delta_metrics(ds, dm, False))
        key = 'delta-e'
        if not np.allclose(got, want, rtol=1e-3) and np.allclose(got, odd, rtol=1e-3):
            key = 'delta-e-unconjugated'
        mon.close(got, want, key, 'projection or correlation of the estimated on the expected change of field', rtol=1e-3, **k2)


def delta(*a):
    if isinstance(a[0], dict):
        return delta_case(*a)
    mp, out, L, it, mon, k2 = a
    delta_check(mp, out, (L[it-1]['sim'], L[it]['sim']), (L[it-1]['E'], L[it]['E']), it, mon, k2)


def delta_case(case, r, mon):
    """Metrics of the change of field when model and telescope differ."""
    o = dict(Nact=8, Nbeam=32, FOV=4.5, corr=(2.2, 4.1, 180), score=(2.5, 4., 180), D=7.5e-3, Dstop=8e-3, F3_res=3, Nitr=2, Nsbp=2)
    mp, out = configs.fleshed('LC', **o)
    npx = int(np.sum(mp.Fend.corr.maskBool))
    f = lambda *s: r.standard_normal(s) + 1j*r.standard_normal(s)
    sim = [f(2, npx), f(2, npx)]
    base = [f(npx, 2), None]
    base[1] = base[0] + (sim[1]-sim[0]).T*np.exp(1j*r.uniform(-1, 1)) + 0.5*f(npx, 2)
    with configs.quiet():
        falco.plot.delta_efield(mp, out, base[1], base[0], sim[1].T, sim[0].T, 1)
    delta_check(mp, out, sim, base, 1, mon, {})
    mon.seen('delta', case['i'])


class Boom(Exception):
    pass


def crash(case, r, mon):
    """After a failure in some iteration, the file holds every completed one and the commands are the last recorded ones."""
    coro, o, mp, out = model(r, [0, 4, 2, 3][case['i'] % 4], 'c%d' % case['i'])
    at = int(r.integers(1, len(out.log10regHist)))
    fe = falco.est.wrapper

    def est(m, ev, *a, **k):
        if int(ev.Itr) == at:
            raise Boom
        return fe(m, ev, *a, **k)
    falco.est.wrapper = est
    hit = False
    try:
        with configs.quiet():
            falco.wfsc.loop(mp, out)
    except Boom:
        hit = True
    finally:
        falco.est.wrapper = fe
    if not hit:
        return
    fn = os.path.join(SCRATCH, mp.runLabel + '_snippet.pkl')
    ok, s = mon.runs(lambda: pickle.load(open(fn, 'rb')), 'crash-file', 'file cannot be read after a failure')
    if not ok:
        return
    mon.equal(int(s.Itr), at-1, 'crash-progress', 'iterations in the file after a failure')
    mon.check(np.all(np.asarray(s.InormHist)[:at] > 0), 'crash-history', 'history in the file after a failure has holes', at=at)
    mon.equal(np.asarray(s.dm1.Vall)[:, :, :at], np.asarray(out.dm1.Vall)[:, :, :at], 'crash-commands', 'commands in the file after a failure')
    mon.equal(mp.dm1.V, np.asarray(out.dm1.Vall)[:, :, at], 'crash-state', 'mirror is not at the last command recorded')
    os.remove(fn)
    mon.seen('crash', coro, at)
