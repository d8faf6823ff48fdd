"""Z02: Zernike sensitivities of the dark hole."""
import copy
import os
import sys
import numpy as np
import falco
from rv.core import rng_of, SCRATCH
from rv import configs
from rv import refzern as rz

RULE = ('random coronagraphs, bandwidths, polarization states of a PROPER prescription, sets of modes (one or several), annuli (one or several, '
        'overlapping), aberrated and unaberrated entrance pupils; also as recorded by the control loop; distinct = (kind, coronagraph, options)')
ASSUMPTIONS = ['the electric field of one source at one wavelength is what the optical model returns (decided by P03 and its neighbours)']

PRESC = '''
import numpy as np
def %(name)s(lam, n, PASSVALUE={}):
    r = np.random.default_rng(int(round(lam*1e12)) %% 99991)
    pol = float(PASSVALUE.get('polaxis', 0))
    a = r.standard_normal((%(ny)d, %(nx)d)) + 1j*r.standard_normal((%(ny)d, %(nx)d))
    a = a*(1 + 0.1*np.exp(1j*pol) + 0.05*pol**2)
    for j, z in zip(np.atleast_1d(PASSVALUE.get('zindex', [])), np.atleast_1d(PASSVALUE.get('zval_m', []))):
        q = np.random.default_rng(int(j))
        a = a + 1e8*z*np.exp(1j*pol)*(q.standard_normal((%(ny)d, %(nx)d)) + 1j*lam*1e6)
    return a, 1.
'''


def cases(tier, seed):
    n = dict(direct=7, proper=3, loop=2) if tier == 'quick' else dict(direct=70, proper=30, loop=20)
    return [dict(kind=k, i=i, seed=seed) for k in n for i in range(n[k])]


def options(r, i, proper=False):
    coro = 'LC' if proper else str(r.choice(['LC', 'FLC', 'VC', 'APLC', 'HLC']))
    o = {}
    if r.random() < 0.6:
        o['Nsbp'] = int(r.choice([1, 2, 3]))
        o['Nwpsbp'] = 3 if o['Nsbp'] > 1 and r.random() < 0.4 else 1
        o['fracBW'] = 0.15
    elif r.random() < 0.5:
        o['Nwpsbp'] = int(r.choice([1, 3]))
    if r.random() < 0.4 and coro != 'VC' and not proper:
        o['centering'] = 'interpixel'
    if proper:
        o['Nbeam'] = 60
    elif r.random() < 0.4:
        o['Nbeam_full'] = int(r.choice([44, 51, 60]))
    nz = [1, 2, 3][i % 3]
    # focal-plane sectors
    if r.random() < 0.4:
        o['corr'] = (2.2, 5.3, float(r.choice([90., 120., 150.])))
        o['score'] = (2.7, 5., o['corr'][2])
    o['sides'] = str(r.choice(['lr', 'l', 'right', 't', 'b', 'tb']))
    na = int(r.integers(1, 4))
    lo = r.uniform(1.5, 4.0, na)
    o['Rsens'] = np.stack([lo, lo + r.uniform(0.8, 1.8, na)], 1)
    if na == 3:
        o['Rsens'] = [list(map(float, v)) for v in o['Rsens']]   # as it would come from a configuration file
    idx = r.permutation(np.arange(2, 16))[:nz]
    o['indsZnoll'] = idx if r.random() < 0.6 else [int(v) for v in idx]
    return coro, o


def masks(mp):
    """Scoring regions, from their definition."""
    n = mp.Fend.Neta, mp.Fend.Nxi
    out = []
    cx, cy = ((np.arange(m) - m//2 + (0.5 if mp.centering == 'interpixel' else 0))/mp.Fend.res for m in n[::-1])
    X, Y = np.meshgrid(cx, cy)
    R, T = np.hypot(X, Y), np.arctan2(Y, X)
    half = np.radians(mp.Fend.corr.ang)/2
    side = mp.Fend.sides if isinstance(mp.Fend.sides, str) else np.atleast_1d(mp.Fend.sides)[0]
    dirs = dict(lr=(0, np.pi), l=(np.pi,), right=(0,), t=(np.pi/2,), b=(-np.pi/2,), tb=(np.pi/2, -np.pi/2))[side]
    ins = np.zeros(n, bool)
    amb = np.zeros(n, bool)
    for d in dirs:
        a = np.abs(np.angle(np.exp(1j*(T-d))))
        ins |= a <= half
        amb |= np.abs(a-half)*np.maximum(R, 1) < 1e-9
    for lo, hi in np.asarray(mp.eval.Rsens, float):
        m = ins & (R >= lo) & (R <= hi)
        out.append(m)
        amb |= (np.abs(R-lo) < 1e-9) | (np.abs(R-hi) < 1e-9)
    return out, amb


def reference(mp, mon, proper):
    """mean over wavelengths and polarizations of |E with the mode - E without|^2 (annulus by annulus)."""
    idx = [int(v) for v in np.atleast_1d(mp.eval.indsZnoll)]
    pols = list(mp.full.pol_conds)
    lams = {}
    for s in range(mp.Nsbp):
        for w in range(mp.Nwpsbp):
            lams.setdefault(round(float(mp.full.lambdasMat[s, w])*1e15), (s, w))
    mon.count('wavelengths', len(lams))
    D = np.zeros((len(idx), mp.Fend.Neta, mp.Fend.Nxi))
    E = mp.P1.full.E
    n = mp.P1.full.Narr
    x = (np.arange(n) - n//2 + (0.5 if mp.centering == 'interpixel' else 0))*2/mp.P1.full.Nbeam
    rr, tt = np.hypot(x[None, :], x[:, None]), np.arctan2(x[:, None], x[None, :])
    for s, w in lams.values():
        for p in pols:
            mv = falco.config.ModelVariables()
            mv.sbpIndex, mv.wpsbpIndex, mv.whichSource, mv.starIndex = s, w, 'star', 0
            mp.full.polaxis = p
            E0 = falco.model.full(mp, mv)
            for q, j in enumerate(idx):
                if proper:
                    keep = getattr(mp.full, 'zindex', None), getattr(mp.full, 'zval_m', None)
                    zi, zv = list(keep[0]) if keep[0] is not None else [], list(keep[1]) if keep[0] is not None else []
                    mp.full.zindex, mp.full.zval_m = np.array(zi+[j]).astype(int), np.array(zv+[mp.full.ZrmsVal])
                    E1 = falco.model.full(mp, mv)
                    for nm, v in zip(('zindex', 'zval_m'), keep):
                        if v is None:
                            delattr(mp.full, nm)
                        else:
                            setattr(mp.full, nm, v)
                else:
                    Z = rz.zern(j, rr, tt)
                    mp.P1.full.E = E.copy()
                    mp.P1.full.E[:, :, w, s] = E[:, :, w, s]*np.exp(2j*np.pi/mp.full.lambdasMat[s, w]*mp.full.ZrmsVal*Z)
                    E1 = falco.model.full(mp, mv)
                    mp.P1.full.E = E
                D[q] += np.abs(E1-E0)**2/len(lams)/len(pols)
    return D


def compare(got, mp, D, mon, key, **kw):
    M, amb = masks(mp)
    got = np.asarray(got)
    if not mon.check(got.shape == (len(D), len(M)), key + '-shape', 'one value per mode and annulus', got=got.shape, **kw):
        return
    for q in range(len(D)):
        for a, m in enumerate(M):
            if not (m & ~amb).any() or (amb & (D[q] > 0)).sum() and amb[m].any():
                ref = np.mean(D[q][m]) if m.any() else None
            else:
                ref = np.mean(D[q][m])
            if ref is None or amb.any():
                # border points may fall on either side of an annulus
                mon.count('annuli with border points')
                continue
            mon.close(got[q, a], ref, key, 'sensitivity is not the mean |change of the field|^2 over the annulus, wavelengths and polarizations', rtol=1e-6, mode=q, annulus=a, **kw)


def run_case(case, mon):
    r = rng_of(case)
    k, i = case['kind'], case['i']
    proper = k == 'proper'
    coro, o = options(r, i, proper)
    if k == 'loop':
        o.update(Nitr=2, Nsbp=1, controller='gridsearchEFC')
        if coro == 'VC':
            coro = 'LC'
    kw = dict(coro=coro, opts=o)
    with configs.quiet():
        ok, mo = mon.runs(lambda: configs.fleshed(coro, **o), 'zsens-setup', 'model setup', **kw)
    if not ok:
        return
    mp, out = mo
    configs.set_v(mp, r, 10.)
    mp.full.ZrmsVal = float(10**r.uniform(-11, -8.5))
    if proper:
        nm = 'rvzp_%d_%d_%d' % (os.getpid(), i, case['seed'])
        with open(os.path.join(SCRATCH, nm + '.py'), 'w') as fh:
            fh.write(PRESC % dict(name=nm, ny=mp.Fend.Neta, nx=mp.Fend.Nxi))
        if SCRATCH not in sys.path:
            sys.path.insert(0, SCRATCH)
        mp.layout = 'proper'
        mp.full.flagPROPER = True
        mp.full.prescription = nm
        mp.full.dm1FlatMap = np.zeros((12, 12))
        mp.full.dm2FlatMap = np.zeros((12, 12))
        mp.full.pol_conds = [[-2, -1, 1, 2], [10], [-1, 1]][int(r.integers(3))]
        if r.random() < 0.5:
            mp.full.zindex = np.array([4, 16])
            mp.full.zval_m = np.array([2e-9, 1e-9])
            if r.random() < 0.5:
                mp.full.zval = np.array([2e-9, 1e-9])
    elif k == 'direct' and r.random() < 0.6:   # an aberrated entrance pupil, different at each wavelength
        mp.P1.full.E = mp.P1.full.E*(1 + 0.1*r.standard_normal(mp.P1.full.E.shape))*np.exp(0.3j*r.standard_normal(mp.P1.full.E.shape))
        kw['aberrated'] = True
    if k == 'loop':
        twin = copy.deepcopy(mp)
        with configs.quiet():
            ok, _ = mon.runs(lambda: falco.wfsc.loop(mp, out), 'zsens-loop-runs', 'control loop', **kw)
        if not ok:
            return
        Z = np.asarray(out.Zsens)
        for it in range(mp.Nitr):
            # intensities are normalised when an iteration begins, and the sensitivities are those its new command gives
            twin.dm1.V, twin.dm2.V = np.array(out.dm1.Vall[:, :, it]), np.array(out.dm2.Vall[:, :, it])
            with configs.quiet():
                falco.imaging.calc_psf_norm_factor(twin)
                twin.dm1.V, twin.dm2.V = np.array(out.dm1.Vall[:, :, it+1]), np.array(out.dm2.Vall[:, :, it+1])
                D = reference(twin, mon, False)
            compare(Z[:, :, it], twin, D, mon, 'zsens-loop', it=it, **kw)
        mon.seen(k, coro, str(sorted(o)), len(D))
        return
    keep = copy.deepcopy(dict(E=mp.P1.full.E, V1=mp.dm1.V, V2=mp.dm2.V, zi=getattr(mp.full, 'zindex', None),
                              zm=getattr(mp.full, 'zval_m', None), zv=getattr(mp.full, 'zval', None)))
    twin = copy.deepcopy(mp)
    with configs.quiet():
        D = reference(twin, mon, proper)
        ok, got = mon.runs(lambda: falco.zern.calc_zern_sens(mp), 'zsens-runs', 'Zernike sensitivities', **kw)
    if not ok:
        return
    compare(got, mp, D, mon, 'zsens-value', **kw)
    mon.check(np.max(D) > 0, 'zsens-positive', 'no sensitivity at all', **kw)
    mon.check(np.array_equal(mp.P1.full.E, keep['E']) and np.array_equal(mp.dm1.V, keep['V1']) and np.array_equal(mp.dm2.V, keep['V2']),
              'zsens-state', 'the evaluation changed the entrance pupil or the mirrors', **kw)
    if proper:
        for a, b in (('zindex', 'zi'), ('zval_m', 'zm'), ('zval', 'zv')):
            v, w = getattr(mp.full, a, None), keep[b]
            if a == 'zval' and w is None and keep['zm'] is not None:
                w = keep['zm'] if v is not None else None   # another name for the same coefficients
            mon.check((w is None and (v is None or np.size(v) == 0)) or (w is not None and v is not None and np.array_equal(v, w)),
                      'zsens-state', 'the evaluation left an aberration in the model', what=a, **kw)
    mon.seen(k, coro, str(sorted(o)), len(D))
    mon.sample(kind=k, coro=coro, opts=o, values=got)
