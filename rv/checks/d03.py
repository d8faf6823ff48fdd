"""D03: commands fitted to a surface reproduce that surface."""
import numpy as np
from astropy.io import fits
from scipy.ndimage import gaussian_filter
import falco
from rv.core import rng_of
from rv.checks import d01

RULE = ('smooth random surfaces the DM can make, for both fitting methods, all orientations, offsets, tilts, clockings, centerings, influence functions and '
        'signs, sampling and odd or even arrays: the surface of the fitted commands against the surface asked for, and the commands against those which '
        'made it; actuator-resolution fits against an independent convolution; distinct = (method, options)')
ASSUMPTIONS = ['tolerance 4 % rms (8 % for the iterative method): 2-3 times the worst interpolation error of the unchanged code']


def cases(tier, seed):
    n = dict(surface=48, actres=24) if tier == 'quick' else dict(surface=500, actres=250)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def prep(dm):
    hd = fits.getheader(dm.inf_fn)
    dm.ppact = hd['C2CDX_M']/hd['P2PDX_M']
    dm.dx_inf0 = dm.dm_spacing/dm.ppact
    dm.inf0 = np.squeeze(fits.getdata(dm.inf_fn)).astype(float)*(1 if dm.inf_sign == '+' else -1)


def run_case(case, mon):
    r = rng_of(case)
    i = case['i']
    nact, o = d01.options(r, i//2)
    if o['c'] != (nact/2-0.5, nact/2-0.5):
        o['c'] = tuple(float(x) for x in nact/2-0.5+r.uniform(-.8, .8, 2))
    dm = d01.make(nact, r, o)
    prep(dm)
    meth = ['lsq', 'proper'][i % 2]
    dm.surfFitMethod = meth if r.random() < 0.8 else meth.upper()
    ppa = float(r.choice([4.0, 5.3, 6.8]))
    dm.dx = dm.dm_spacing/ppa
    y, x = np.mgrid[:nact, :nact]-(nact-1)/2.
    win = np.clip(1.0-(np.hypot(x, y)/(nact/2.))**4, 0, 1)
    h = gaussian_filter(r.standard_normal((nact, nact)), 1.5)*win*1e-9*float(10**r.uniform(0, 2))
    o = {k: v for k, v in o.items() if k != 'VtoH'}
    if case['kind'] == 'actres':
        # heights wanted at the actuators themselves: h convolved with the influence function there
        n = dm.inf0.shape[0]
        c = n//2
        p = int(round(dm.ppact))
        K = dm.inf0[c % p::p, c % p::p]
        q = K.shape[0]//2
        H = d01.reorient(h, getattr(dm, 'orientation', 'rot0').lower())
        big = np.zeros((nact+2*q, nact+2*q))
        S = np.zeros((nact, nact))
        big[q:q+nact, q:q+nact] = H
        for a in range(2*q+1):
            for b in range(2*q+1):
                S += K[2*q-a, 2*q-b]*big[a:a+nact, b:b+nact]
        S0 = S.copy()
        V = falco.dm.fit_surf_to_act(dm, S)
        mon.equal(S, S0, 'fit-input', 'fitting modified the surface')
        tol = 1e-3 if meth == 'lsq' else 0.1
        err = np.sqrt(np.mean((V*dm.VtoH-h)**2)/np.mean(h**2))
        mon.close(err, 0., 'fit-actres-%s' % meth, 'fitted commands do not reproduce heights at the actuators', scale=1., rtol=tol, opts=o)
        mon.seen('actres', meth, sorted(o), o.get('orientation'))
        mon.raises(ValueError, lambda: falco.dm.fit_surf_to_act(dm, np.zeros((nact-1, nact-1))), 'fit-too-small', 'a surface smaller than the DM')
        return
    N = int((nact+8)*ppa)
    N += (N % 2) if r.random() < 0.7 else 0
    dm.V = h/dm.VtoH
    V0 = dm.V.copy()
    S = falco.dm.gen_surf_from_act(dm, dm.dx, N)
    S0 = S.copy()
    V1 = falco.dm.fit_surf_to_act(dm, S)
    mon.equal(S, S0, 'fit-input', 'fitting modified the surface')
    mon.equal(dm.V, V0, 'fit-keeps-command', 'fitting changed the current command')
    mon.check(V1.shape == (nact, nact) and np.all(np.isfinite(V1)), 'fit-shape', 'fitted commands have the wrong shape or are not finite')
    dm.V = V1
    S1 = falco.dm.gen_surf_from_act(dm, dm.dx, N)
    tol = 0.04 if meth == 'lsq' else 0.08
    mon.close(np.sqrt(np.mean((S1-S)**2)/np.mean(S**2)), 0., 'fit-surface-%s' % meth, 'surface of the fitted commands differs from the surface asked for',
              scale=1., rtol=tol, opts=o, ppa=ppa, N=N)
    mon.close(np.sqrt(np.mean(((V1-V0)*dm.VtoH)**2)/np.mean(h**2)), 0., 'fit-command-%s' % meth, 'fitted commands differ from those which made the surface',
              scale=1., rtol=1.5*tol, opts=o, ppa=ppa, N=N)
    mon.seen('surface', meth, sorted(o), o.get('orientation'))
    mon.sample(method=meth, options=o, ppa=ppa, N=N)
