"""T01: thin films.  The solver and the material transmissions are compared with
the Abeles characteristic-matrix method and with conservation and reciprocity
laws; two-dimensional occulters and tables (in memory or found on disk) with film
values computed one stack at a time."""
import glob
import os
import shutil
import tempfile

import numpy as np

from rv.core import rng_of, REPO, SCRATCH

RULE = ('reflected and transmitted fields equal those of the characteristic-matrix method, energy is conserved without '
        'absorption and transmission is reciprocal; every pixel of a mask and every table entry is the film value of '
        'its own thicknesses, wavelength and parameters, whatever tables lie on disk')
NPROC = 8
ASSUMPTIONS = ['Sellmeier and Cauchy coefficients and metal data are those documented in the module and its data files']


def cases(tier, seed):
    k = dict(quick=(60, 40, 16, 12), thorough=(3000, 1500, 400, 200))[tier]
    out = []
    for kind, n in zip(('solver', 'material', 'occulter', 'table'), k):
        out += [dict(kind=kind, i=i, seed=seed) for i in range(n)]
    return out


def abeles(n, d, theta, lam, tm):
    """(r, t) for the fields exp(+i w t); r and t of E (TE) or H (TM); n = n' - i k"""
    n = np.asarray(n, complex)
    s = n[0]*np.sin(theta)
    c = np.sqrt(1 - (s/n)**2 + 0j)
    c = np.where((n*c).imag > 0, -c, c)                # decaying wave in exp(+iwt)
    p = c/n if tm else n*c
    M = np.eye(2, dtype=complex)
    for k in range(1, len(n) - 1):
        b = 2*np.pi*n[k]*c[k]*d[k-1]/lam
        M = M @ np.array([[np.cos(b), 1j*np.sin(b)/p[k]], [1j*p[k]*np.sin(b), np.cos(b)]])
    B = M[0, 0] + M[0, 1]*p[-1]
    C = M[1, 0] + M[1, 1]*p[-1]
    r = (p[0]*B - C)/(p[0]*B + C)
    t = 2*p[0]/(p[0]*B + C)
    return r, t, (p[-1].real/p[0].real)


def run_solver(case, mon):
    import falco.thinfilm as tf
    r = rng_of(case)
    nl = int(r.integers(0, 6))
    lossy = bool(r.random() < 0.5)
    n = r.uniform(1, 3.5, nl + 2).astype(complex)
    if r.random() < 0.5:
        n[0] = 1
    if lossy and nl:
        for k in range(1, nl + 1):
            if r.random() < 0.6:
                n[k] -= 1j*r.uniform(0, 4)
    lam = float(r.uniform(300e-9, 2e-6))
    d = r.uniform(0, 2, nl)*lam
    if lossy:
        d *= 0.2
    if nl and r.random() < 0.2:
        d[int(r.integers(nl))] = 0
    th_max = np.arcsin(min(1, n[-1].real/n[0].real))*0.95   # a propagating wave in the exit medium
    th = float(r.choice([0, r.uniform(0, th_max)]))
    tm = bool(r.random() < 0.5)
    ok, res = mon.runs(lambda: tf.solver(n, d, th, lam, tm), 'solver-runs', '%d layers' % nl)
    if not ok:
        return
    R, T, rr, tt = res
    r0, t0, P = abeles(n, d, th, lam, tm)
    what = '%d layers, %.1f deg, %s, %s' % (nl, np.degrees(th), 'TM' if tm else 'TE', 'absorbing' if lossy else 'lossless')
    mon.close(rr, r0, 'solver-reflection', what, rtol=0, atol=1e-8)
    mon.close(tt, np.sqrt(P)*t0, 'solver-transmission', what, rtol=0, atol=1e-8)
    mon.close(R, abs(r0)**2, 'solver-R', what, rtol=0, atol=1e-8)
    mon.close(T, P*abs(t0)**2, 'solver-T', what, rtol=0, atol=1e-8)
    if np.all(n.imag == 0):
        mon.close(R + T, 1.0, 'energy', what, rtol=0, atol=1e-8)
    else:
        mon.check(R + T <= 1 + 1e-8, 'energy-gain', what, R=float(R), T=float(np.real(T)))
    if nl:
        back = float(np.arcsin(np.clip((n[0]*np.sin(th)/n[-1]).real, -1, 1)))
        res2 = tf.solver(n[::-1].copy(), d[::-1].copy(), back, lam, tm)
        mon.close(res2[1], T, 'reciprocity', what, rtol=0, atol=1e-8)
    mon.seen('solver', nl, lossy, tm, th > 0)


def sell(b, c, x2):
    return np.sqrt(1 + sum(bb*x2/(x2 - cc) for bb, cc in zip(b, c)))


TI = np.array([[397, 2.08, 2.95], [413, 2.14, 2.98], [431, 2.21, 3.01], [451, 2.27, 3.04], [471, 2.3, 3.1],
               [496, 2.36, 3.19], [521, 2.44, 3.2], [549, 2.54, 3.43], [582, 2.6, 3.58], [617, 2.67, 3.74],
               [659, 2.76, 3.84], [704, 2.86, 3.96], [756, 3.00, 4.01], [821, 3.21, 4.01], [892, 3.29, 3.96],
               [984, 3.35, 3.97], [1088, 3.5, 4.02], [1216, 3.62, 4.15]])
_DATA = {}


def data(fn):
    if fn not in _DATA:
        _DATA[fn] = np.loadtxt(os.path.join(REPO, 'falco', 'data', fn), delimiter='\t', comments='#')
    return _DATA[fn]


def indices(sub, diel, lam):
    um2 = (lam*1e6)**2
    nm = lam*1e9
    if sub.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
        ns = sell((0.68374049400, 0.42032361300, 0.58502748000), (0.00460352869, 0.01339688560, 64.49327320000), um2)
    else:
        ns = sell((1.03961212, 0.231792344, 1.01046945), (0.00600069867, 0.0200179144, 103.560653), um2)
    if diel.lower() == 'pmgi':
        nd = 1.524 + 5.176e-3/um2 + 2.105e-4/um2**2
    else:
        m = data('MgF2_data_from_Rodriguez-deMarcos_wvlUM_n_k.txt')
        nd = np.interp(nm, 1e3*m[:, 0], m[:, 1]) - 1j*np.interp(nm, 1e3*m[:, 0], m[:, 2])
    m = data('nickel_data_from_Palik_via_Bala_wvlNM_n_k.txt')
    nn = np.interp(nm, m[:, 0], m[:, 1]) - 1j*np.interp(nm, m[:, 0], m[:, 2])
    nt = np.interp(nm, TI[:, 0], TI[:, 1]) - 1j*np.interp(nm, TI[:, 0], TI[:, 2])
    return ns, nd, nn, nt


def film(sub, diel, lam, aoi, tti, tm, td, d0, pol, opd=False):
    """(t, r) of one stack"""
    ns, nd, nn, nt = indices(sub, diel, lam)
    if tm < 1e-10:
        tti = 0.0
    n = [1, 1, nd, nn, nt, ns]
    d = [d0 - td - tm - tti, td, tm, tti]
    out = []
    for p in ((0, 1) if pol == 2 else (pol,)):
        r, t, P = abeles(n, d, np.radians(aoi), lam, bool(p))
        out.append((np.sqrt(P)*t, r if pol != 2 or p == 0 else -r))
    t, r = np.mean(out, axis=0)
    return (t, r) if opd else (np.conj(t), np.conj(r))


SUBS = ['FS', 'fs', 'FusedSilica', 'FUSED_SILICA', 'N-BK7', 'nbk7', 'BK7']
METALS = ['nickel', 'Ni', 'NICKEL']
DIELS = ['PMGI', 'pmgi', 'MgF2']


def stack_args(r):
    lam = float(r.uniform(450e-9, 850e-9))
    return dict(sub=str(r.choice(SUBS)), metal=str(r.choice(METALS)), diel=str(r.choice(DIELS)), lam=lam,
                aoi=float(r.choice([0, r.uniform(0, 40)])), tti=float(r.choice([0, 3e-9, r.uniform(0, 20e-9)])),
                d0=float(r.uniform(3, 6))*lam, pol=int(r.integers(3)), opd=bool(r.random() < 0.4))


def run_material(case, mon):
    import falco.thinfilm as tf
    r = rng_of(case)
    a = stack_args(r)
    tm = np.sort(r.uniform(0, 120e-9, int(r.integers(1, 4))))
    if r.random() < 0.5:
        tm[0] = 0
    td = r.uniform(0, 700e-9, int(r.integers(1, 4)))
    if r.random() < 0.5:
        td[0] = 0
    what = str({k: v for k, v in a.items()})
    ok, res = mon.runs(lambda: tf.calc_complex_trans_matrix(a['sub'], a['metal'], a['diel'], a['lam'], a['aoi'], a['tti'],
                                                            tm, td, a['d0'], a['pol'], a['opd']), 'material-runs', what)
    if not ok:
        return
    ref = np.array([[film(a['sub'], a['diel'], a['lam'], a['aoi'], a['tti'], m, d, a['d0'], a['pol'], a['opd'])
                     for m in tm] for d in td])
    mon.close(np.asarray(res[0]), ref[:, :, 0], 'material-transmission', what, rtol=0, atol=1e-8)
    mon.close(np.asarray(res[1]), ref[:, :, 1] , 'material-reflection', what, rtol=0, atol=1e-8)
    mon.count('film stacks compared', ref[:, :, 0].size)
    if a['aoi'] == 0:
        two = [tf.calc_complex_trans_matrix(a['sub'], a['metal'], a['diel'], a['lam'], 0., a['tti'], tm, td, a['d0'], p)
               for p in (0, 2)]
        mon.close(np.abs(two[1][0]), np.abs(two[0][0]), 'normal-incidence', what, rtol=0, atol=1e-8)
        mon.close(np.abs(two[1][1]), np.abs(two[0][1]), 'normal-incidence-reflection', what, rtol=0, atol=1e-8)
    mon.seen('material', a['sub'], a['diel'], a['pol'], a['opd'], a['aoi'] > 0, a['tti'] > 0, tm[0] == 0)


def run_occulter(case, mon):
    import falco.thinfilm as tf
    r = rng_of(case)
    a = stack_args(r)
    sh = (int(r.integers(2, 9)), int(r.integers(2, 9)))
    tmv = np.append(0, r.uniform(10e-9, 120e-9, 2))
    tdv = np.append(0, r.uniform(0, 700e-9, 3))
    tm, td = r.choice(tmv, sh), r.choice(tdv, sh)
    keep = tm.copy(), td.copy()
    ok, out = mon.runs(lambda: tf.calc_complex_occulter(a['sub'], a['metal'], a['diel'], a['lam'], a['aoi'], a['tti'], tm, td,
                                                        a['d0'], a['pol'], a['opd']), 'occulter-runs', str(a))
    if not ok:
        return
    ref = np.array([[film(a['sub'], a['diel'], a['lam'], a['aoi'], a['tti'], tm[i, j], td[i, j], a['d0'], a['pol'], a['opd'])[0]
                     for j in range(sh[1])] for i in range(sh[0])])
    mon.close(np.asarray(out), ref, 'occulter', str((sh, a)), rtol=0, atol=1e-8)
    mon.check(np.array_equal(keep[0], tm) and np.array_equal(keep[1], td), 'occulter-input-changed', str(a))
    mon.count('film stacks compared', ref.size)
    mon.seen('occulter', a['pol'], a['opd'], a['tti'] > 0, sh[0] != sh[1])


class Disk:
    """the table directory, kept in scratch"""

    def __enter__(self):
        import falco.thinfilm as tf
        self.tf, self.old = tf, tf.__file__
        self.d = tempfile.mkdtemp(dir=SCRATCH)
        os.makedirs(self.d + '/data/material')
        os.makedirs(self.d + '/falco')
        os.symlink(os.path.join(REPO, 'falco', 'data'), self.d + '/falco/data')
        tf.__file__ = self.d + '/falco/thinfilm.py'
        self.real = os.path.join(REPO, 'data', 'material', '*.npy')
        self.before = set(glob.glob(self.real))
        return self

    def __exit__(self, *e):
        self.tf.__file__ = self.old
        shutil.rmtree(self.d)
        for f in set(glob.glob(self.real)) - self.before:
            try:
                os.remove(f)
            except OSError:
                pass


def params(r, base=None):
    import types
    mp = types.SimpleNamespace(F3=types.SimpleNamespace(), full=types.SimpleNamespace())
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric = str(r.choice(['FS', 'N-BK7'])), 'Ni', str(r.choice(['PMGI', 'MgF2']))
    mp.F3.d0fac = float(r.choice([4, 5]))
    mp.t_Ti_nm = float(r.choice([0, 3.0, 3.02]))
    mp.dt_metal_nm, mp.dt_diel_nm = float(r.choice([5., 20.])), float(r.choice([50., 100.]))
    mp.t_metal_nm_vec = np.arange(0, 105, mp.dt_metal_nm)
    mp.t_diel_nm_vec = np.arange(0, 350, mp.dt_diel_nm)
    mp.lambda0 = float(r.choice([575e-9, 575.4e-9]))
    mp.fracBW = float(r.choice([0.1, 0.1004]))
    mp.Nsbp = int(r.choice([1, 3]))
    mp.Nwpsbp = int(r.choice([1, 3]))
    mp.aoi = float(r.choice([0, 5.5, 5.52]))
    return mp


def spectrum(mp):
    mp.fracBWsbp = mp.fracBW/mp.Nsbp
    mp.sbp_centers = mp.lambda0*np.linspace(1 - (mp.fracBW - mp.fracBWsbp)/2, 1 + (mp.fracBW - mp.fracBWsbp)/2, mp.Nsbp) \
        if mp.Nsbp > 1 else np.array([mp.lambda0])
    if mp.Nwpsbp == 1:
        mp.full.lambdas = mp.sbp_centers.copy()
    else:
        mp.full.lambdas = mp.lambda0*np.linspace(1 - mp.fracBW/2, 1 + mp.fracBW/2, mp.Nsbp*(mp.Nwpsbp - 1) + 1)
    mp.full.lambdasMat = np.array([[mp.full.lambdas[s*(mp.Nwpsbp - 1) + w if mp.Nwpsbp > 1 else s]
                                    for w in range(mp.Nwpsbp)] for s in range(mp.Nsbp)])
    return mp


def judge_table(mp, tab, lams, refl, mon, key, what, r, n=8):
    """spot-check entries against single stacks"""
    want = (len(mp.t_diel_nm_vec), len(mp.t_metal_nm_vec))
    if not mon.check(tab.shape[:2] == want and tab.shape[2] >= len(lams), key + '-shape', what, got=tab.shape):
        return
    got, ref = [], []
    for _ in range(n):
        i, j, k = int(r.integers(want[0])), int(r.integers(want[1])), int(r.integers(len(lams)))
        t, rr = film(mp.F3.substrate, mp.F3.dielectric, lams[k], mp.aoi, 1e-9*mp.t_Ti_nm, 1e-9*mp.t_metal_nm_vec[j],
                     1e-9*mp.t_diel_nm_vec[i], lams[k]*mp.F3.d0fac, 2)
        got.append(tab[i, j, k])
        ref.append(rr if refl else t)
    mon.close(np.array(got), np.array(ref), key, what, rtol=0, atol=1e-8)
    mon.count('table entries compared', n)


def run_table(case, mon):
    import copy
    import falco.thinfilm as tf
    r = rng_of(case)
    with Disk():
        mp = spectrum(params(r))
        hist = []
        for step in range(4):
            refl = bool(r.random() < 0.4)
            what = 'step %d after %s' % (step, hist)
            ok, res = mon.runs(lambda: tf.gen_complex_trans_table(mp, flagRefl=refl), 'table-runs', what)
            if not ok:
                return
            judge_table(mp, np.asarray(res[0]), mp.sbp_centers, refl, mon, 'table-compact', what, r)
            judge_table(mp, np.asarray(res[1]), mp.full.lambdas, refl, mon, 'table-full', what, r)
            hist.append((refl, mp.F3.d0fac, mp.t_Ti_nm, mp.aoi, mp.lambda0, mp.fracBW))
            mp = copy.deepcopy(mp)
            other = params(r)
            name = str(r.choice(['d0fac', 't_Ti_nm', 'aoi', 'lambda0', 'fracBW', 'same', 'Nwpsbp']))
            if name == 'd0fac':
                mp.F3.d0fac = other.F3.d0fac
            elif name != 'same':
                setattr(mp, name, getattr(other, name))
            spectrum(mp)
            mon.seen('table', refl, name, mp.Nsbp, mp.Nwpsbp)


def run_case(case, mon):
    globals()['run_' + case['kind']](case, mon)
