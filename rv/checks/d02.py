"""D02: DM commands obey their limits, pins, ties, dead actuators, quantisation and gain curves."""
import copy

import numpy as np
import falco
from rv.core import rng_of
from rv.checks import d01

RULE = ('random commands with violations of both limits, non-zero bias maps, dead, pinned and tied actuators; quantisation with all rounding rules through '
        'the surface; non-linear gain curves; neighbour-rule violations in all eight directions and at the edges; distinct = (kind, options)')
ASSUMPTIONS = ['tied pairs are disjoint from dead, pinned and other tied actuators (no chains); whether one sweep of the neighbour rule suffices for '
               'every map is not claimed']


def cases(tier, seed):
    n = dict(limits=40, quantize=24, gain=20, neighbor=24) if tier == 'quick' else dict(limits=1500, quantize=400, gain=500, neighbor=1200)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def run_case(case, mon):
    globals()[case['kind']](case, rng_of(case), mon)


def limits(case, r, mon):
    i = case['i']
    n = int(r.integers(4, 16))
    dm = d01.make(n, r, {})
    N = n*n
    dm.Vmin = float(r.choice([0., -20., -50.]))
    dm.Vmax = dm.Vmin + float(r.uniform(40, 100))
    mid = 0.5*(dm.Vmin + dm.Vmax)
    if i % 3 == 0:
        dm.biasMap = np.zeros((n, n)) + (0. if dm.Vmin <= 0 <= dm.Vmax else mid)
    elif i % 3 == 1:
        dm.biasMap = np.full((n, n), mid)
    else:
        dm.biasMap = mid + r.uniform(-10, 10, (n, n))
    bias = dm.biasMap.ravel().copy()
    perm = r.permutation(N)
    nd, npn, nt = [int(x) for x in r.integers(0, min(5, N//5)+1, 3)]
    dead, pinned, tied = perm[:nd], perm[nd:nd+npn], perm[nd+npn:nd+npn+2*nt].reshape(nt, 2)
    dm.dead = dead.astype(int)
    dm.pinned = pinned.astype(int) if r.random() < 0.5 else pinned.astype(float)
    dm.Vpinned = np.array([float(r.uniform(dm.Vmin, dm.Vmax)) - bias[p] for p in pinned])
    vp = dm.Vpinned.copy()
    dm.tied = tied.astype(int) if nt else np.zeros((0, 2), dtype=int)
    strength = float(r.choice([0.2, 1.0, 1.5]))

    def want(V):
        V = V.ravel().copy()
        V[dead] = 0.
        w = np.clip(V + bias, dm.Vmin, dm.Vmax) - bias
        free = (V + bias >= dm.Vmin) & (V + bias <= dm.Vmax)
        w[free] = V[free]
        if pinned.size:
            w[pinned] = vp
        if nt:
            w[tied[:, 1]] = w[tied[:, 0]]
        return w.reshape(n, n)
    V0 = r.uniform(-1, 1, (n, n))*0.5*(dm.Vmax-dm.Vmin)*strength
    dm.V = V0.copy()
    bias_in, tied_in = dm.biasMap.copy(), dm.tied.copy()
    out = falco.dm.enforce_constraints(dm)
    w = want(V0)
    info = dict(Vmin=dm.Vmin, Vmax=dm.Vmax, bias=i % 3, nd=nd, np=npn, nt=nt)
    V1 = np.array(out.V)
    mon.close(V1, w, 'constraints', 'constrained commands differ from the stated rules', rtol=1e-12, atol=1e-12, **info)
    total = V1.ravel() + bias
    ok = np.ones(N, dtype=bool)
    if nt:
        ok[tied[:, 1]] = False   # a follower takes its leader's command, whatever its own bias
    mon.check(np.all(total[ok] <= dm.Vmax + 1e-9) and np.all(total[ok] >= dm.Vmin - 1e-9), 'within-limits',
              'an actuator is left outside the voltage limits', **info)
    mon.count('actuators railed', int(np.sum(np.abs(w - V0) > 0)))
    same = np.ones(N, dtype=bool)
    same[np.concatenate([dead, pinned, tied[:, 1] if nt else []]).astype(int)] = False
    same &= ((V0.ravel()+bias >= dm.Vmin) & (V0.ravel()+bias <= dm.Vmax))
    mon.equal(V1.ravel()[same], V0.ravel()[same], 'valid-unchanged', 'a valid command was altered', **info)
    mon.equal(dm.biasMap, bias_in, 'bias-kept', 'bias map changed', **info)
    mon.equal(dm.tied, tied_in, 'ties-kept', 'list of tied actuators changed', **info)
    out2 = falco.dm.enforce_constraints(out)
    mon.equal(np.array(out2.V), V1, 'idempotent', 'constraining twice changes the commands', **info)
    # an actuator that reached a limit is held there; a later in-range command changes only the others
    V2 = V1 + r.uniform(-0.05, 0.05, (n, n))*(dm.Vmax-dm.Vmin)
    out2.V = V2.copy()
    V3 = np.array(falco.dm.enforce_constraints(out2).V)
    railed = np.zeros(N, dtype=bool)
    d0 = V0.ravel().copy()
    d0[dead] = 0
    railed[(d0+bias < dm.Vmin) | (d0+bias > dm.Vmax)] = True
    if nt:
        railed[tied[:, 1]] = False
    if pinned.size:
        railed[pinned] = False
    mon.close(V3.ravel()[railed], V1.ravel()[railed], 'railed-held', 'an actuator that reached its limit is not held there', rtol=1e-12, atol=1e-12, **info)
    mon.close(V3.ravel()[pinned], vp, 'pinned-held', 'a pinned actuator moved', rtol=1e-12, atol=1e-12, **info)
    mon.check(not np.any(V3.ravel()[dead]), 'dead-zero', 'a dead actuator moved', **info)
    if nt:
        mon.equal(V3.ravel()[tied[:, 1]], V3.ravel()[tied[:, 0]], 'tied-equal', 'tied actuators differ', **info)
    mon.seen('limits', i % 3, nd > 0, npn > 0, nt > 0, strength)
    mon.sample(kind='limits', Nact=n, railed=int(railed.sum()), **info)
    # commands go through the same rules on their way to the surface
    if i % 4 == 0:
        dm2 = d01.make(n, r, {})
        for a in ('Vmin', 'Vmax', 'biasMap', 'tied', 'dead'):
            setattr(dm2, a, copy.deepcopy(getattr(dm, a)))
        dm2.pinned, dm2.Vpinned = pinned.astype(int), vp.copy()
        dm2.V = V0.copy()
        dm3 = d01.make(n, r, {})
        dm3.V = w
        N2 = int(4*(n+4))
        S2 = falco.dm.gen_surf_from_act(dm2, dm2.dm_spacing/4, N2)
        S3 = falco.dm.gen_surf_from_act(dm3, dm3.dm_spacing/4, N2)
        mon.close(S2, S3, 'surface-constrained', 'the surface is not that of the constrained command', rtol=1e-9, **info)


def quantize(case, r, mon):
    i = case['i']
    n = int(r.integers(4, 14))
    o = dict(VtoH=1e-9*r.uniform(0.4, 4, (n, n))*(r.choice([1, -1]) if i % 5 == 4 else 1))
    dm = d01.make(n, r, o)
    step = float(10**r.uniform(-10.5, -9))
    meth = ['round', 'floor', 'ceil', 'fix', 'Round', None][i % 6]
    dm.HminStep = step
    if meth:
        dm.HminStepMethod = meth
    dm.V = r.uniform(-5, 5, (n, n))
    dm.V.flat[0] = 0.
    V0 = dm.V.copy()
    h = dm.VtoH*dm.V
    N = 4*(n+4)
    S = falco.dm.gen_surf_from_act(dm, dm.dm_spacing/4, N)
    mon.equal(dm.V, V0, 'quantize-keeps', 'quantising changed the command itself', method=meth)
    dq = falco.dm.discretize_surf(dm, meth or 'round')
    hq = dm.VtoH*dq.Vquantized
    k = hq/step
    mon.close(k, np.round(k), 'quantize-step', 'quantised heights are not whole steps', scale=1., rtol=1e-6, method=meth)
    e = (hq-h)/step
    t = 1e-6
    m = (meth or 'round').lower()
    rule = {'round': np.abs(e) <= 0.5+t, 'floor': (e <= t) & (e > -1-t), 'ceil': (e >= -t) & (e < 1+t),
            'fix': (np.abs(hq) <= np.abs(h)+t*step) & (np.abs(e) < 1+t) & (hq*h >= 0)}[m]
    mon.check(np.all(rule), 'quantize-rule', 'quantised heights do not follow the rounding rule', method=meth)
    dm3 = d01.make(n, r, o)
    want = dict(round=np.round, floor=np.floor, ceil=np.ceil, fix=np.trunc)[m](h/step)*step/dm.VtoH
    dm3.V = want
    S3 = falco.dm.gen_surf_from_act(dm3, dm3.dm_spacing/4, N)
    # a height within rounding of a half step may go either way
    if np.all(np.abs(np.abs(h/step - np.floor(h/step)) - 0.5) > 1e-6):
        mon.close(S, S3, 'quantize-surface', 'the surface is not that of the quantised heights', rtol=1e-7, method=meth)
    mon.raises(ValueError, lambda: falco.dm.discretize_surf(dm, 'nearest'), 'quantize-bad-method', 'unknown rounding method')
    mon.seen('quantize', meth, int(np.log10(step)))


def gain(case, r, mon):
    i = case['i']
    n = int(r.integers(3, 14))
    dm = d01.make(n, r, {})
    dm.biasMap = r.uniform(0, 60, (n, n))
    dm.V = r.uniform(-20, 20, (n, n))
    kind = ['linear', 'poly1', 'quadratic', 'poly2', 'fourier2', 'Quadratic', 'Fourier2'][i % 7]
    dm.fitType = kind
    shape = (n, n) if r.random() < 0.6 else ()
    nm = 1e-9
    if kind.lower() in ('quadratic', 'poly2'):
        dm.p1, dm.p2, dm.p3 = [nm*r.uniform(-1, 1, shape)*s for s in (0.05, 5, 30)]

        def height(V):
            return dm.p1*V*V + dm.p2*V + dm.p3
    elif kind.lower() == 'fourier2':
        dm.a0, dm.a1, dm.a2, dm.b1, dm.b2 = [nm*r.uniform(-100, 100, shape) for _ in range(5)]
        dm.w = r.uniform(0.005, 0.03, shape)

        def height(V):
            return dm.a0 + dm.a1*np.cos(V*dm.w) + dm.b1*np.sin(V*dm.w) + dm.a2*np.cos(2*V*dm.w) + dm.b2*np.sin(2*V*dm.w)
    else:
        g = dm.VtoH.copy()
        out = falco.dm.update_gain_map(dm)
        mon.equal(out.VtoH, g, 'gain-linear', 'gain of a linear DM changed')
        mon.seen('gain', kind)
        return
    V0, b0 = dm.V.copy(), dm.biasMap.copy()
    out = falco.dm.update_gain_map(dm)
    Vt = V0 + b0
    h = 1e-2
    fd = (height(Vt+h)-height(Vt-h))/(2*h)
    scale = float(np.max(np.abs(fd)))
    mon.close(out.VtoH, fd, 'gain-derivative', 'gain map is not the slope of the height curve at the total voltage', scale=scale, rtol=1e-5, fit=kind)
    mon.equal(out.V, V0, 'gain-keeps', 'updating the gain changed the command')
    del dm.__dict__['p1' if 'p1' in dm.__dict__ else 'a1']
    mon.raises(ValueError, lambda: falco.dm.update_gain_map(dm), 'gain-missing', 'missing coefficients')
    mon.seen('gain', kind, shape == ())


def neighbor(case, r, mon):
    i = case['i']
    n = int(r.integers(2, 12))
    lim = float(r.uniform(1, 40))
    if i % 3 == 0:   # a valid map: nothing to do
        V = r.uniform(-0.5, 0.5, (n, n))*lim
        Vin = V.copy()
        ok, res = mon.runs(lambda: falco.dm.apply_neighbor_rule(V, lim, n), 'neighbor-runs', 'neighbour rule')
        if ok:
            mon.equal(res[0], Vin, 'neighbor-valid', 'a map that keeps the rule was changed')
            mon.check(np.asarray(res[1]).size == 0, 'neighbor-valid-pairs', 'pairs reported for a map that keeps the rule')
        mon.seen('neighbor', 'valid', n > 2)
    elif i % 3 == 1:   # one violating pair
        d = [(0, 1), (1, 0), (1, 1), (1, -1)][int(r.integers(4))]
        a = (int(r.integers(0, n-d[0])), int(r.integers(max(0, -d[1]), n-max(0, d[1]))))
        b = (a[0]+d[0], a[1]+d[1])
        x = lim*float(r.uniform(0.55, 0.95))
        s = float(r.choice([-1, 1]))
        V = np.zeros((n, n))
        V[a], V[b] = s*x, -s*x
        Vin = V.copy()
        ok, res = mon.runs(lambda: falco.dm.apply_neighbor_rule(V, lim, n), 'neighbor-runs', 'neighbour rule')
        if ok:
            W, pairs = np.asarray(res[0]), np.asarray(res[1])
            want = Vin.copy()
            want[a], want[b] = s*lim/2, -s*lim/2
            mon.close(W, want, 'neighbor-single', 'a violating pair is not brought to the limit symmetrically', scale=lim, rtol=1e-9, pair=(a, b), n=n)
            mon.check(pairs.shape == (1, 2) and {int(v) for v in pairs[0]} == {a[0]*n+a[1], b[0]*n+b[1]}, 'neighbor-single-pair',
                      'the violating pair is not the one reported', pairs=pairs)
            mon.equal(V, Vin, 'neighbor-input', 'input map modified')
        mon.seen('neighbor', 'single', d, a[0] == 0, a[1] == 0, b[0] == n-1, b[1] == n-1)
    else:
        V = r.standard_normal((n, n))*lim
        Vin = V.copy()
        ok, res = mon.runs(lambda: falco.dm.apply_neighbor_rule(V, lim, n), 'neighbor-runs', 'neighbour rule')
        if ok:
            W, pairs = np.asarray(res[0]), np.asarray(res[1]).reshape(-1, 2).astype(int)
            mon.close(W.sum(), Vin.sum(), 'neighbor-mean', 'the neighbour rule changes the mean command', scale=lim*n, rtol=1e-9)
            dist = np.max(np.abs(np.stack([pairs[:, 0]//n - pairs[:, 1]//n, pairs[:, 0] % n - pairs[:, 1] % n])), axis=0) if pairs.size else np.ones(0)
            mon.check(np.all(dist == 1), 'neighbor-adjacent', 'reported pairs are not neighbours')
            touched = np.zeros(n*n, dtype=bool)
            touched[pairs.ravel()] = True
            mon.equal(W.ravel()[~touched], Vin.ravel()[~touched], 'neighbor-untouched', 'an actuator of no reported pair changed')
            viol = any(np.max(np.abs(Vin[max(0, -p):n-max(0, p), max(0, -q):n-max(0, q)] - Vin[max(0, p):n-max(0, -p), max(0, q):n-max(0, -q)]), initial=0) > lim
                       for p, q in ((0, 1), (1, 0), (1, 1), (1, -1)))
            mon.check((pairs.size > 0) == viol, 'neighbor-found', 'violations present and pairs reported do not agree')
            mon.check(np.max(W) <= np.max(Vin)+1e-9 and np.min(W) >= np.min(Vin)-1e-9, 'neighbor-range', 'commands grew')
            mon.equal(V, Vin, 'neighbor-input', 'input map modified')
        mon.seen('neighbor', 'noise', n)
