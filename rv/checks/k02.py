"""K02: weak actuators are left out of control by the stated rule; schedules mean what their rows say."""
import numpy as np
import falco
from rv.core import rng_of
from rv import configs

RULE = ('random Jacobians with a wide range of actuator strengths, thresholds, tied pairs, mirrors in use and their schedules over several iterations: the actuators kept and the Jacobian '
        'columns against an independent rule; random control schedules (row counts including zero, complex regularisations, mirror sets, flags) against row-by-row '
        'expansion; distinct = (kind, options)')
ASSUMPTIONS = ['strengths within 1e-9 of the threshold are not judged']


def cases(tier, seed):
    n = dict(cull=40, schedule=60, chain=4) if tier == 'quick' else dict(cull=1500, schedule=4000, chain=120)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def run_case(case, mon):
    globals()[case['kind']](case, rng_of(case), mon)


def fake_jac(r, npx, n, nm):
    s = 10**r.uniform(-5, 0, n)
    s[r.random(n) < 0.1] = 0
    return 10**r.uniform(-8, 0)*s[None, :, None]*(r.standard_normal((npx, n, nm))+1j*r.standard_normal((npx, n, nm)))


def strengths(G):
    """Energy each actuator has in the dark hole, relative to the strongest."""
    e = np.array([np.mean([np.sum(np.abs(G[:, a, m])**2) for m in range(G.shape[2])]) for a in range(G.shape[1])])
    return e/e.max()


def model(r, nact):
    mp = falco.config.ModelParameters()
    mp.dm_ind = np.array([[1, 2], [1], [2]][int(r.integers(0, 3))])
    mp.logGmin = float(r.uniform(-9, -0.3))
    mp.Nitr = 6
    for dm in (mp.dm1, mp.dm2):
        dm.Nact = nact
        dm.NactTotal = nact*nact
        dm.act_ele = np.arange(nact*nact)
        dm.Nele = nact*nact
        t = r.permutation(nact*nact)[:2*int(r.integers(0, 4))].reshape(-1, 2)
        dm.tied = t if t.size else np.array([], dtype=int).reshape((0, 2))
    for dm in (mp.dm8, mp.dm9):
        dm.NactTotal = dm.Nele = 0
        dm.act_ele = np.array([], dtype=int)
    return mp


def cull(case, r, mon):
    nact = int(r.integers(3, 9))
    n = nact*nact
    npx, nm = int(r.integers(3, 30)), int(r.integers(1, 4))
    mp = model(r, nact)
    if r.random() < 0.5:
        sets = [np.array(x) for x in ([1, 2], [1], [2], [2, 1])]
        mp.dm_ind_sched = [sets[int(k)] for k in r.integers(0, 4, mp.Nitr)]
        mp.dm_ind = mp.dm_ind_sched[0]
    cv = falco.config.Object()
    J = None
    for it in range(4):
        prev = [int(x) for x in mp.dm_ind]
        if hasattr(mp, 'dm_ind_sched'):
            mp.dm_ind = mp.dm_ind_sched[it]
        now = [int(x) for x in mp.dm_ind]
        changed = it == 0 or sorted(prev) != sorted(now)
        cv.Itr = it
        cv.flagRelin = changed or bool(r.random() < 0.4)
        both = [(k, d) for k, d in ((1, mp.dm1), (2, mp.dm2)) if k in now]
        before = {k: np.array(d.act_ele) for k, d in ((1, mp.dm1), (2, mp.dm2))}
        if cv.flagRelin:
            J = falco.config.Object()
            for k, d in both:
                if changed:
                    d.act_ele = np.arange(n)
                    d.Nele = n
                before[k] = np.array(d.act_ele)
                G = fake_jac(r, npx, len(d.act_ele), nm)
                for a, b in d.tied:  # columns of the pair are made alike in no way: the rule alone keeps them
                    pass
                setattr(J, 'G%d' % k, G)
        full = {k: getattr(J, 'G%d' % k).copy() for k, _ in both}
        with configs.quiet():
            ok, _ = mon.runs(lambda: falco.ctrl.cull_weak_actuators(mp, cv, J), 'cull-runs', 'culling failed', it=it, dms=now)
        if not ok:
            return
        for k, d in ((1, mp.dm1), (2, mp.dm2)):
            ele = np.asarray(d.act_ele)
            if k not in now:
                mon.equal(ele, before[k], 'cull-unused', 'actuators of a mirror not in use changed', it=it, dm=k)
                continue
            G = np.asarray(getattr(J, 'G%d' % k))
            mon.check(np.all(np.diff(ele) > 0), 'cull-sorted', 'actuators in use are not sorted or repeated', it=it, dm=k)
            if changed:
                e = strengths(full[k])
                lim = 10**mp.logGmin
                keep = e >= lim
                tied = np.isin(before[k], np.unique(d.tied))
                keep = keep | tied
                sure = np.abs(e/lim - 1) > 1e-9
                got = np.isin(before[k], ele)
                mon.check(np.all((got == keep) | ~(sure | tied)), 'cull-rule', 'actuators kept are not the strong and the tied ones', it=it, dm=k, kept=int(got.sum()), want=int(keep.sum()),
                          logGmin=mp.logGmin)
                mon.check(np.all(np.isin(ele, before[k])), 'cull-subset', 'an actuator was added', it=it, dm=k)
                mon.equal(G, full[k][:, np.isin(before[k], ele), :], 'cull-columns', 'Jacobian columns are not those of the actuators kept', it=it, dm=k)
                mon.count('culled', int((~got).sum()))
            else:
                mon.equal(ele, before[k], 'cull-later', 'actuators changed in an iteration without a change of mirrors', it=it, dm=k)
                mon.equal(G, full[k], 'cull-later', 'Jacobian changed in an iteration without a change of mirrors', it=it, dm=k)
            mon.equal(d.Nele, ele.size, 'cull-number', 'number of actuators in use', it=it, dm=k)
            mon.equal(G.shape[1], ele.size, 'cull-number', 'number of Jacobian columns', it=it, dm=k)
    mon.seen('cull', nact, nm, round(mp.logGmin, 1), len(mp.dm1.tied), hasattr(mp, 'dm_ind_sched'))


def chain(case, r, mon):
    """The Jacobian computed for the actuators kept is the one that was cropped."""
    o = dict(Nact=8, Nbeam=32, FOV=4., corr=(2.2, 3.6, 180), score=(2.2, 3.5, 180), logGmin=float(r.uniform(-4, -1)), D=6e-3, Dstop=8e-3)
    t = r.permutation(64)[:4].reshape(-1, 2)
    o['tied1'] = np.sort(t, axis=1)
    mp, _ = configs.fleshed(['LC', 'VC'][case['i'] % 2] if case['i'] > 1 else 'LC', **o)
    configs.set_v(mp, r, 5.)
    cv = falco.config.Object()
    cv.Itr, cv.flagRelin = 0, True
    with configs.quiet():
        falco.imaging.calc_psf_norm_factor(mp)
        J = falco.model.jacobian(mp)
        full = {k: getattr(J, 'G%d' % k).copy() for k in (1, 2)}
        falco.ctrl.cull_weak_actuators(mp, cv, J)
        J2 = falco.model.jacobian(mp)
    for k, d in ((1, mp.dm1), (2, mp.dm2)):
        a, b = np.asarray(getattr(J, 'G%d' % k)), np.asarray(getattr(J2, 'G%d' % k))
        mon.close(a, b, 'cull-relinearised', 'Jacobian computed after culling differs from the culled one', rtol=1e-7, dm=k)
        mon.check(0 < len(d.act_ele) <= 64, 'cull-some', 'no actuators left')
        mon.equal(np.asarray(d.act_ele), np.flatnonzero((strengths(full[k]) >= 10**mp.logGmin) | np.isin(np.arange(64), d.tied)), 'cull-rule', 'actuators kept are not the strong and the tied ones', dm=k)
    mon.seen('chain', round(mp.logGmin, 2))


def schedule(case, r, mon):
    nrow = int(r.integers(1, 7))
    rows = []
    for j in range(nrow):
        rows.append([int(r.choice([0, 1, 1, 2, 3, 7])), complex(float(np.round(r.uniform(-6, 0), 2)), float(r.choice([0, 0, 1]))),
                     int(r.choice([1, 2, 12, 21, 129, 1289, 89])), int(r.random() < 0.5), int(r.random() < 0.5)])
        if rows[-1][0] == 0:
            rows[-1][2] = int(r.choice([0, 1]))
    if sum(x[0] for x in rows) == 0:
        rows[0][0], rows[0][2] = 1, 12
    S = np.array(rows, dtype=complex)
    keep = S.copy()
    if r.random() < 0.3 and all(x[1].imag == 0 for x in rows):
        S = S.real.copy()
        keep = S.copy()
    ok, v = mon.runs(lambda: falco.ctrl.efc_schedule_generator(S), 'schedule-runs', 'schedule generator failed', rows=rows)
    if not ok:
        return
    N, relin, gs, reg, dm = v
    mon.equal(S, keep, 'schedule-input', 'schedule was modified')
    eN, er, eg, ereg, edm = 0, [], [], [], []
    for n, g, u, a, b in rows:
        if a:
            er.append(eN)
        if b:
            eg.append(eN)
        for _ in range(n):
            ereg.append(g)
            edm.append([int(x) for x in str(u)])
            eN += 1
    mon.equal(N, eN, 'schedule-n', 'number of iterations', rows=rows)
    mon.equal(sorted(set(int(x) for x in relin)), sorted(set(er)), 'schedule-relin', 'iterations of relinearisation', rows=rows)
    mon.equal(sorted(set(int(x) for x in gs)), sorted(set(eg)), 'schedule-search', 'iterations of the grid search', rows=rows)
    mon.equal(np.asarray(reg, complex), np.array(ereg, complex), 'schedule-reg', 'regularisation per iteration', rows=rows)
    mon.check([[int(x) for x in d] for d in dm] == edm, 'schedule-dms', 'mirrors per iteration', rows=rows)
    mon.seen('schedule', repr(rows))
