"""X01: running in parallel gives what running in serial gives."""
import contextlib
import os
import pickle
import sys
import time

import numpy as np
import falco
from rv.core import rng_of, SCRATCH
from rv import configs

RULE = ('the same model run with and without parallel processing, 2..5 workers, with random delays injected before the optical model so that workers '
        'interleave: Jacobians (several coronagraphs, DM subsets, actuator subsets, ties), sliced Jacobians, summed and sub-band images (sub-bands, '
        'wavelengths, stars, wavelength-dependent focal plane masks, polarization states of a PROPER prescription), normalization, perfect estimates, '
        'model-based grid searches, Zernike sensitivities; distinct = (kind, options, order in which the model calls ended)')
ASSUMPTIONS = ['equality to 1e-10 of the largest value (sums may be taken in a different order)']
RTOL = 1e-10

PRESC = '''
import numpy as np
import time
def %(name)s(lam, n, PASSVALUE={}):
    r = np.random.default_rng(int(round(lam*1e12)) %% 99991)
    pol = float(PASSVALUE.get('polaxis', 0))
    a = r.standard_normal((%(ny)d, %(nx)d)) + 1j*r.standard_normal((%(ny)d, %(nx)d))
    a *= 1 + 0.1*np.exp(1j*pol) + 0.05*pol**2
    z = PASSVALUE.get('zval_m', [])
    if np.size(z):
        a *= np.exp(1j*1e8*np.sum(z)*np.asarray(PASSVALUE['zindex'])[-1])
    time.sleep(float(np.random.default_rng(int(1e6*abs(pol))).uniform(0, 0.004)))
    d = PASSVALUE.get('dm1')
    if d is not None:
        a *= np.exp(1j*1e7*d.ravel()[3])
    a *= 1 + 0.01*PASSVALUE.get('xoffset', 0.)
    return a, 1.
'''


def cases(tier, seed):
    q = tier == 'quick'
    n = dict(jac=8, image=10, est=6, proper=6, grid=4, zern=3, slices=3) if q else \
        dict(jac=90, image=120, est=70, proper=60, grid=40, zern=24, slices=30)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


@contextlib.contextmanager
def delayed(seed, mon, top=0.004):
    """Random pauses just before and inside the optical model, in whichever thread runs it."""
    r = np.random.default_rng(seed)
    order = []
    sw = sys.getswitchinterval()
    sys.setswitchinterval(1e-4)
    saved = []

    def wrap(mod, name):
        f = getattr(mod, name, None)
        if f is None:
            return
        saved.append((mod, name, f))

        def g(*a, **k):
            time.sleep(float(r.uniform(0, top)))
            v = f(*a, **k)
            order.append(getattr(a[1], 'sbpIndex', None) if len(a) > 1 else None)
            return v
        setattr(mod, name, g)
    wrap(falco.model, 'full')
    wrap(falco.model, 'compact')
    if hasattr(falco.model, 'models'):
        wrap(falco.model.models, 'full_Fourier')
    try:
        yield order
    finally:
        for mod, name, f in saved:
            setattr(mod, name, f)
        sys.setswitchinterval(sw)


def options(r, kind):
    o = {}
    coro = str(r.choice(['LC', 'FLC', 'APLC', 'HLC', 'VC'], p=[.2, .2, .15, .3, .15]))
    o['centering'] = 'interpixel' if (r.random() < 0.3 and coro != 'VC') else 'pixel'
    if r.random() < 0.6:
        o['Nsbp'] = int(r.choice([2, 3]))
        o['fracBW'] = 0.15
    if r.random() < 0.5:
        o['Nwpsbp'] = int(r.choice([2, 3]))
        if o.get('Nsbp', 1) > 1:
            o['Nwpsbp'] = 3
    if coro == 'HLC' and o.get('Nwpsbp', 1) % 2 == 0:
        o['Nwpsbp'] = 3
    if r.random() < 0.4:
        o['stars'] = [(0., 0., 1.), (float(r.uniform(-5, 5)), float(r.uniform(-5, 5)), float(r.uniform(0.1, 1)))]
        o['jac_star_weights'] = [1., float(r.uniform(0.1, 1))]
    if r.random() < 0.3 and kind in ('jac', 'est', 'slices') and coro != 'VC':
        o['zerns'] = [1, 3, 5]
        o['Zcoef'] = 1e-9*np.array([1., 2., 3.])
    if r.random() < 0.3:
        o['dm_ind'] = [int(r.integers(1, 3))]
    if coro == 'VC':
        o['charge'] = 6
        o.pop('Nsbp', None)
        if kind in ('jac', 'slices'):
            o.pop('stars', None)
            o.pop('jac_star_weights', None)
    o['nthreads'] = int(r.integers(2, 6))
    return coro, o


def both(mp, fn, case, mon, kind):
    """fn(mp) with flagParallel False and then True, the latter with delays."""
    mp.flagParallel = False
    with configs.quiet():
        a = fn(mp)
    mp.flagParallel = True
    with configs.quiet(), delayed(int(rng_of(case).integers(1 << 30)), mon) as order:
        ok, b = mon.runs(lambda: fn(mp), 'par-%s-runs' % kind, 'parallel run failed where the serial one works')
    mp.flagParallel = False
    mon.count('delayed model calls', len(order))
    if ok:
        mon.seen(kind, case['i'], case['seed'], tuple(order))
    return a, (b if ok else None)


def pick_acts(mp, r, n):
    for k, dm in ((1, mp.dm1), (2, mp.dm2)):
        if k in mp.dm_ind:
            dm.act_ele = np.sort(r.choice(dm.Nact**2, size=n, replace=False))
            dm.Nele = dm.act_ele.size
            if r.random() < 0.5:
                a = r.permutation(dm.act_ele)
                dm.tied = np.array([[a[0], a[1]], [a[2], a[3]]])
                for p, q in dm.tied:
                    dm.V.flat[q] = dm.V.flat[p]


def write_presc(mp, tag):
    name = 'rvpresc_%d_%s' % (os.getpid(), tag)
    with open(os.path.join(SCRATCH, name + '.py'), 'w') as fh:
        fh.write(PRESC % dict(name=name, ny=mp.Fend.Neta, nx=mp.Fend.Nxi))
    if SCRATCH not in sys.path:
        sys.path.insert(0, SCRATCH)
    return name


def fleshed_proper(o, r, tag):
    """A model whose truth is a PROPER prescription sensitive to wavelength, polarization, DM and Zernikes."""
    mp, _ = configs.fleshed('LC', Nbeam=60, **o)  # the array is 64 samples across
    mp.layout = 'proper'
    mp.full.flagPROPER = True
    mp.full.prescription = write_presc(mp, tag)
    mp.full.dm1FlatMap = np.zeros((12, 12))
    mp.full.dm2FlatMap = np.zeros((12, 12))
    mp.full.ZrmsVal = 1e-9
    return mp


def run_case(case, mon):
    r = rng_of(case)
    kind, i = case['kind'], case['i']
    coro, o = options(r, kind)
    if kind in ('jac', 'slices'):
        mp, _ = configs.fleshed(coro, **o)
        configs.set_v(mp, r, 10.)
        pick_acts(mp, r, 9 if coro == 'VC' else 14)

        def fn(mp):
            J = falco.model.jacobian(mp)
            return np.array(J.G1), np.array(J.G2)
        if kind == 'jac':
            a, b = both(mp, fn, case, mon, kind)
            if b is None:
                return
        else:
            mp.flagParallel = False
            with configs.quiet():
                a = fn(mp)  # also leaves the precomputed fields in mp
            d = os.path.join(SCRATCH, 'slices%d_%d' % (os.getpid(), i))
            os.makedirs(d)
            mp.path.jac = d
            fnp = os.path.join(d, 'mp.pkl')
            with open(fnp, 'wb') as fh:
                pickle.dump(mp, fh)
            combos = [[m, k, int(n)] for m in range(mp.jac.Nmode) for k in np.atleast_1d(mp.dm_ind)
                      for n in (mp.dm1 if k == 1 else mp.dm2).act_ele]
            combos = [combos[j] for j in r.permutation(len(combos))]
            for part in np.array_split(np.arange(len(combos)), int(r.integers(1, 5))):
                falco.model.write_jac_slices(fnp, [combos[j] for j in part])
            ok, J = mon.runs(lambda: falco.model.reassemble_jac_from_slices(mp), 'par-slices-runs', 'slices could not be put together', opts=o)
            if not ok:
                return
            b = (np.array(J.G1), np.array(J.G2))
            mon.seen(kind, coro, sorted(o), i, case['seed'])
        for k in (0, 1):
            if k+1 in mp.dm_ind:
                mon.check(np.any(a[k] != 0), 'par-jac-nonzero', 'Jacobian is empty', opts=o)
            mon.close(b[k], a[k], 'par-%s' % kind, 'parallel Jacobian differs from the serial one', rtol=RTOL, coro=coro, opts=o, dm=k+1)
    elif kind == 'image':
        mp, _ = configs.fleshed(coro, **o)
        configs.set_v(mp, r, 10.)
        def fn(mp):
            return (falco.imaging.get_summed_image(mp), np.stack([falco.imaging.get_sbp_image(mp, s) for s in range(mp.Nsbp)]))
        a, b = both(mp, fn, case, mon, kind)
        if b is not None:
            mon.close(b[0], a[0], 'par-summed-image', 'parallel band image differs from the serial one', rtol=RTOL, coro=coro, opts=o)
            mon.close(b[1], a[1], 'par-sbp-image', 'parallel sub-band images differ from the serial ones', rtol=RTOL, coro=coro, opts=o)

        def norm(mp):
            falco.imaging.calc_psf_norm_factor(mp)
            return np.array(mp.Fend.full.I00), np.array(mp.Fend.compact.I00)
        a, b = both(mp, norm, case, mon, 'norm')
        if b is not None:
            mon.close(b[0], a[0], 'par-norm', 'parallel normalization differs from the serial one', rtol=RTOL, coro=coro, opts=o)
            mon.close(b[1], a[1], 'par-norm', 'compact normalization differs', rtol=RTOL, coro=coro, opts=o)
    elif kind == 'est':
        mp, _ = configs.fleshed(coro, **o)
        configs.set_v(mp, r, 10.)

        def fn(mp):
            ev = falco.config.Object()
            falco.est.perfect(mp, ev)
            return np.array(ev.Eest), np.array(ev.imageArray)
        a, b = both(mp, fn, case, mon, kind)
        if b is not None:
            mon.close(b[0], a[0], 'par-estimate', 'parallel perfect estimate differs from the serial one', rtol=RTOL, coro=coro, opts=o)
            mon.close(b[1], a[1], 'par-estimate-image', 'parallel estimate images differ from the serial ones', rtol=RTOL, coro=coro, opts=o)
    elif kind == 'proper':
        o = {k: o[k] for k in ('Nsbp', 'Nwpsbp', 'fracBW', 'nthreads', 'dm_ind', 'stars', 'jac_star_weights') if k in o}
        mp = fleshed_proper(o, r, '%d_%d' % (i, case['seed']))
        configs.set_v(mp, r, 10.)
        mp.full.pol_conds = [[-2, -1, 1, 2], [-1, 1], [-2, 2], [10]][int(r.integers(0, 4))]
        keep = getattr(mp.full, 'polaxis', None)

        def fn(mp):
            return (falco.imaging.get_summed_image(mp), np.stack([falco.imaging.get_sbp_image(mp, s) for s in range(mp.Nsbp)]))
        a, b = both(mp, fn, case, mon, kind)
        if b is not None:
            mon.close(b[0], a[0], 'par-summed-image', 'parallel band image differs from the serial one', rtol=RTOL, opts=o, pol=mp.full.pol_conds)
            mon.close(b[1], a[1], 'par-sbp-image', 'parallel sub-band images differ from the serial ones', rtol=RTOL, opts=o, pol=mp.full.pol_conds)

        def est(mp):
            ev = falco.config.Object()
            falco.est.perfect(mp, ev)
            return np.array(ev.Eest), np.array(ev.imageArray)
        a, b = both(mp, est, case, mon, kind)
        if b is not None:
            mon.close(b[0], a[0], 'par-estimate', 'parallel perfect estimate differs from the serial one', rtol=RTOL, opts=o)
            mon.close(b[1], a[1], 'par-estimate-image', 'parallel estimate images differ from the serial ones', rtol=RTOL, opts=o)
        mon.sample(kind=kind, opts=o, pol=mp.full.pol_conds, keep=keep)
        return
    elif kind == 'grid':
        for k in ('stars', 'jac_star_weights', 'zerns', 'Zcoef'):
            o.pop(k, None)
        if coro == 'VC':
            coro = 'LC'
        o['flagUseModel'] = True
        o['log10regVec'] = np.sort(r.uniform(-6, -1, int(r.integers(1, 4))))
        o['dmfacVec'] = r.uniform(0.5, 1.2, int(r.integers(1, 3)))
        mp, _ = configs.fleshed(coro, **o)
        configs.set_v(mp, r, 5.)
        if r.random() < 0.5:
            pick_acts(mp, r, 20)
        with configs.quiet():
            jac = falco.model.jacobian(mp)
            ev = falco.config.Object()
            falco.est.perfect(mp, ev)
        V = [mp.dm1.V.copy(), mp.dm2.V.copy()]

        def fn(mp):
            mp.dm1.V, mp.dm2.V = V[0].copy(), V[1].copy()
            cvar = falco.config.Object()
            cvar.Itr = 0
            cvar.Eest = np.array(ev.Eest)
            cvar.flagRelin = True
            cvar.NeleAll = sum(dm.Nele for k, dm in ((1, mp.dm1), (2, mp.dm2)) if k in mp.dm_ind)
            js = falco.config.Object()
            js.G1, js.G2 = np.array(jac.G1), np.array(jac.G2)
            falco.ctrl.wrapper(mp, cvar, js)
            return [np.array(mp.dm1.V), np.array(mp.dm2.V), np.array(cvar.InormVec), np.array(cvar.Im), np.array([cvar.cMin, cvar.log10regUsed])]
        a, b = both(mp, fn, case, mon, kind)
        if b is None:
            return
        for n, x, y in zip(('dm1', 'dm2', 'Inorm', 'image', 'best'), b, a):
            mon.close(x, y, 'par-grid-' + n, 'parallel grid search differs from the serial one', rtol=1e-7, coro=coro, opts=o)
    elif kind == 'zern':
        usep = i % 3 == 2
        o = {k: o[k] for k in ('Nsbp', 'Nwpsbp', 'fracBW', 'nthreads') if k in o}
        o['Rsens'] = np.array([[2.5, 4.], [3., 5.]])
        o['indsZnoll'] = np.array([2, 3, 5])
        if usep:
            mp = fleshed_proper(o, r, 'z%d_%d' % (i, case['seed']))
            mp.full.pol_conds = [-2, -1, 1, 2]
        else:
            mp, _ = configs.fleshed('LC', **o)
        configs.set_v(mp, r, 5.)
        a, b = both(mp, lambda mp: np.array(falco.zern.calc_zern_sens(mp)), case, mon, kind)
        if b is not None:
            mon.check(np.all(a > 0), 'par-zern-positive', 'Zernike sensitivities are not positive', opts=o)
            mon.close(b, a, 'par-zern', 'parallel Zernike sensitivities differ from the serial ones', rtol=RTOL, opts=o, proper=usep)
    mon.sample(kind=kind, coro=coro, opts=o)
