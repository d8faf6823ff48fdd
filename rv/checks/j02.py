"""J02: cost and gradient used by gradient-based (AD) wavefront control."""
import numpy as np
import falco
from rv.core import rng_of
from rv import configs

RULE = ('AD-EFC cost and gradient of LC/FLC/APLC/vortex models over centering, wavelengths, Zernike modes, stars, relays, DM orientation, offset, tilt, '
        'stops, apodizers and signs: gradient against central differences of the returned cost for random actuators and random directions, cost '
        'against an independent sum over the compact model; distinct = (coronagraph, options, DM)')
ASSUMPTIONS = ['the gradient is judged at the commands it is linearised about (zero or tiny change); tolerance 1% of the largest element, 6% with DMs '
               'tilted out of plane (the adjoint of the interpolation is approximate there)']


def cases(tier, seed):
    q = tier == 'quick'
    return [dict(kind='lyot', i=i, seed=seed) for i in range(11 if q else 130)] + \
           [dict(kind='vortex', i=i, seed=seed) for i in range(3 if q else 30)]


def options(r, kind, i):
    coro = 'VC' if kind == 'vortex' else ['LC', 'FLC', 'APLC', 'HLC'][i % 4]
    o = dict(useDifferentiableModel=True)
    o['centering'] = 'interpixel' if r.random() < 0.35 and coro != 'VC' else 'pixel'
    f = int(r.integers(0, 10))
    if i % 5 == 1:
        o['orient1'], o['orient2'] = [str(x) for x in r.choice(
            ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270'], size=2)]
    if i % 5 == 2:
        o['tilt1'] = tuple(float(x) for x in r.uniform(-8, 8, 3))
        o['tilt2'] = (0., 0., float(r.uniform(-30, 30)))
        o['flagZYX'] = bool(r.random() < 0.5)
    if f in (1, 2):
        for k in (1, 2):
            o['dmc%d' % k] = tuple(float(x) for x in 5.5+r.uniform(-0.8, 0.8, 2))
    if i % 5 == 3:
        o['DM1stop'] = o['DM2stop'] = True
        o['Dstop'] = float(r.uniform(8e-3, 11.5e-3))
    if f in (3, 4):
        o['relays'] = tuple(int(x) for x in r.integers(0, 3, 4))
        o['flagRotation'] = bool(r.random() < 0.7)
    if i % 5 == 4 and coro != 'VC':
        o['stars'] = [(0., 0., 1.), (float(r.uniform(-5, 5)), float(r.uniform(-5, 5)), float(r.uniform(0.1, 1)))]
        o['jac_star_weights'] = [1., float(r.uniform(0.1, 1))]
    if f in (5, 6):
        o['d_P2_dm1'] = float(r.choice([0.03, -0.02, 0.2]))
        o['d_dm1_dm2'] = float(r.uniform(0.02, 0.3))
    if f == 7 and coro != 'VC':
        o['zerns'] = [1, int(r.integers(2, 8))]
        o['Zcoef'] = 1e-9*r.uniform(0.5, 5, 2)
    if f == 8:
        for k in (1, 2):
            o['VtoH%d' % k] = 1e-9*r.uniform(0.5, 3, (12, 12))
    if r.random() < 0.4:
        o['Nsbp'] = 2 if coro == 'VC' else 3
        o['fracBW'] = 0.2
    if r.random() < 0.3:
        o['inf_sign'] = '-'
    if r.random() < 0.3:
        o['FPMampFac'] = float(r.uniform(0, 0.3)) if coro in ('LC', 'APLC') else 0.
    if coro == 'LC':
        o['apod'] = bool(r.random() < 0.4)
    if coro != 'VC' and r.random() < 0.2:
        o['layout'] = 'fpm_scale'
    if coro == 'FLC' and r.random() < 0.5 and kind != 'normalized':
        o['Nbeam_P4'] = int(r.choice([30, 36, 50]))
    return coro, o


def run_case(case, mon):
    r = rng_of(case)
    coro, o = options(r, case['kind'], case['i'])
    mp, _ = configs.fleshed(coro, **o)
    configs.set_v(mp, r, float(r.choice([0., 10., 30.])))
    mp.ctrl.ad = falco.config.Object()
    mp.ctrl.ad.utu_scale_fac = float(10**r.uniform(-8, -4))
    n1, n2 = mp.dm1.Nele, mp.dm2.Nele
    leg = np.concatenate((np.ones(n1), 2*np.ones(n2)))
    mp.ctrl.uLegend = leg
    deadk = 1 + case['i'] % 2
    deadi = int(r.integers(0, (n1, n2)[deadk-1]))
    ddm = (mp.dm1, mp.dm2)[deadk-1]
    ddm.dead_map.flat[ddm.act_ele[deadi]] = True
    ddm.V.flat[ddm.act_ele[deadi]] = 0.  # where it is held anyway
    dead = deadi + (0 if deadk == 1 else n1)
    V1, V2 = mp.dm1.V.copy(), mp.dm2.V.copy()
    mask = np.asarray(mp.Fend.corr.maskBool)
    npx = int(mask.sum())

    def mvs():
        for m in range(mp.jac.Nmode):
            mv = falco.config.ModelVariables()
            mv.whichSource = 'star'
            mv.sbpIndex, mv.zernIndex, mv.starIndex = mp.jac.sbp_inds[m], mp.jac.zern_inds[m], mp.jac.star_inds[m]
            yield m, mv
    L = [[], [], [], []]
    with configs.quiet():
        E0 = [falco.model.compact(mp, mv)[mask] for m, mv in mvs()]
        for m, mv in mvs():
            a, b, c, _, d = falco.model.compact(mp, mv, forRevGradModel=True)
            mon.close(a[mask], E0[m], 'ad-forward', 'field of the model prepared for the gradient differs from the compact model', rtol=1e-9, coro=coro, opts=o)
            for q, x in zip(L, (a, b, c, d)):
                q.append(x)
    amp = float(10**r.uniform(-5, -2.5))
    Ee = np.stack(E0, 1) + amp*(r.standard_normal((npx, mp.jac.Nmode)) + 1j*r.standard_normal((npx, mp.jac.Nmode)))
    w = np.asarray(mp.jac.weights)

    def cost_grad(u, reg):
        c, g = falco.model.compact_reverse_gradient(u, reg, mp, Ee, *L)
        return float(c), np.asarray(g)

    def my_cost(u, reg):
        mp.dm1.V = V1.copy()
        mp.dm2.V = V2.copy()
        mp.dm1.V.flat[mp.dm1.act_ele] += u[:n1]
        mp.dm2.V.flat[mp.dm2.act_ele] += u[n1:]
        t = 0.
        for m, mv in mvs():
            t += w[m]*np.sum(np.abs(Ee[:, m] + falco.model.compact(mp, mv)[mask] - E0[m])**2)
        mp.dm1.V, mp.dm2.V = V1.copy(), V2.copy()
        return t + mp.ctrl.ad.utu_scale_fac*10.**reg*np.sum(u**2)
    n = n1+n2
    off = -300.
    with configs.quiet():
        u0 = np.zeros(n)
        c0, g0 = cost_grad(u0, off)
        mon.close(c0, np.sum(w*np.sum(np.abs(Ee)**2, axis=0)), 'ad-cost-zero', 'cost at zero command change is not the weighted dark-hole energy', rtol=1e-9, coro=coro)
        mon.equal(mp.dm1.V, V1, 'ad-restores', 'commands of DM1 changed')
        mon.equal(mp.dm2.V, V2, 'ad-restores', 'commands of DM2 changed')
        mon.check(g0.shape == (n,) and np.all(np.isfinite(g0)) and np.any(g0 != 0), 'ad-grad-shape', 'gradient shape/finite', coro=coro, opts=o)
        mon.check(g0[dead] == 0, 'ad-dead', 'gradient of a dead actuator is not zero', coro=coro, opts=o, value=float(g0[dead]))
        reg = float(r.uniform(-4, 0))
        u = 3*r.standard_normal(n)
        cu, gu = cost_grad(u, reg)
        cu2, gu2 = cost_grad(u, off)
        mon.close(cu, my_cost(u, reg), 'ad-cost', 'cost is not the weighted dark-hole energy plus penalty', rtol=1e-8, coro=coro, opts=o)
        pen = mp.ctrl.ad.utu_scale_fac*10.**reg
        mon.close(gu-gu2, 2*pen*u, 'ad-penalty', 'gradient of the command penalty', rtol=1e-6, atol=1e-9*np.abs(gu2).max(), coro=coro, opts=o)
        mon.close(cu-cu2, pen*np.sum(u**2), 'ad-penalty-cost', 'command penalty in the cost', rtol=1e-6, atol=1e-9*abs(cu2), coro=coro, opts=o)
        oop = any(t != 0 for k in (1, 2) for t in o.get('tilt%d' % k, (0, 0, 0))[:2])
        tol = 6e-2 if oop else 1e-2
        for k in (1, 2):
            gm = np.abs(g0[leg == k]).max()
            for idx in r.choice(np.flatnonzero(leg == k), size=5, replace=False):
                if idx == dead:
                    continue
                h = 0.25
                e = np.zeros(n)
                e[idx] = h
                fd = (cost_grad(e, off)[0]-cost_grad(-e, off)[0])/(2*h)
                mon.count('gradient elements compared')
                mon.seen(coro, sorted(o), k, case['i'])
                mon.close(g0[idx], fd, 'ad-grad-fd', 'gradient element is not the derivative of the cost', scale=1., rtol=0., atol=tol*gm + 1e-6*abs(c0),
                          coro=coro, opts=o, dm=k)
        d = r.standard_normal(n)
        d[dead] = 0.
        h = 0.02
        fd = (cost_grad(h*d, off)[0]-cost_grad(-h*d, off)[0])/(2*h)
        mon.close(g0@d, fd, 'ad-grad-dir', 'directional derivative of the cost', scale=1., rtol=0., atol=tol*np.linalg.norm(g0)*1.5 + 1e-6*abs(c0), coro=coro, opts=o)
    mon.sample(coro=coro, options=sorted(o), modes=int(mp.jac.Nmode), cost=c0)
